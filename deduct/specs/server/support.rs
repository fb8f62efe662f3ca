//! Contracts of the dependencies (lsp-server), as its sources say; definitions, not contracts of /repo.

fn extract_request(req: Request, method: &str) -> Result<(RequestId, Params), ExtractError> {
    if req.method == method {
        match params_of(req.params, method) {
            Ok(params) => Ok((req.id, params)),
            Err(error) => Err(ExtractError::JsonError { method: req.method, error }),
        }
    } else {
        Err(ExtractError::MethodMismatch(req))
    }
}

fn extract_notification(notification: Notification, method: &str) -> Result<Params, ExtractError> {
    if notification.method == method {
        match params_of(notification.params, method) {
            Ok(params) => Ok(params),
            Err(error) => Err(ExtractError::JsonError { method: notification.method, error }),
        }
    } else {
        Err(ExtractError::MethodMismatch(notification))
    }
}

fn new_err(id: RequestId, code: i32, message: String) -> Response {
    Response { id, result: None, error: Some(ResponseError { code, message, data: None }) }
}

fn new_ok(id: RequestId, result: Value) -> Response {
    Response { id, result: Some(serde_json::to_value(result).unwrap()), error: None }
}

fn notification_new(method: String, params: Value) -> Notification {
    Notification { method, params: serde_json::to_value(params).unwrap() }
}
