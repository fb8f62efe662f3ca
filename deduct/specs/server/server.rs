//! Contracts of crates/server/src/server.rs. `step` is one turn of the message loop (extracted by d_server.py):
//! `Next` goes on, `Ok(())` stops the server, an error ends it.
impl Server {
    fn step(&mut self, conn: &mut Connection, msg: Message) -> anyhow::Result<()> {
        match msg {
            // exactly one response with the id of the request
            Message::Request(req) => {
                if conn.handle_shutdown(&req)? {
                    return Ok(());
                }
                let response = match req.method {
                    "textDocument/prepareCallHierarchy" => match params_of(req.params, "textDocument/prepareCallHierarchy") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.prepare_call_hierarchy(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "callHierarchy/incomingCalls" => match params_of(req.params, "callHierarchy/incomingCalls") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.call_hierarchy_incoming_calls(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "callHierarchy/outgoingCalls" => match params_of(req.params, "callHierarchy/outgoingCalls") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.call_hierarchy_outgoing_calls(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/codeAction" => match params_of(req.params, "textDocument/codeAction") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.code_action(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/completion" => match params_of(req.params, "textDocument/completion") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.completion(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/diagnostic" => match params_of(req.params, "textDocument/diagnostic") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.pull_diagnostics(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/foldingRange" => match params_of(req.params, "textDocument/foldingRange") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.folding_range(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/formatting" => match params_of(req.params, "textDocument/formatting") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.formatting(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/rangeFormatting" => match params_of(req.params, "textDocument/rangeFormatting") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.range_formatting(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/definition" => match params_of(req.params, "textDocument/definition") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.goto_definition(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/typeDefinition" => match params_of(req.params, "textDocument/typeDefinition") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.goto_type_definition(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/declaration" => match params_of(req.params, "textDocument/declaration") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.goto_declaration(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/hover" => match params_of(req.params, "textDocument/hover") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.hover(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/inlayHint" => match params_of(req.params, "textDocument/inlayHint") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.inlay_hint(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/references" => match params_of(req.params, "textDocument/references") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.find_references(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/prepareRename" => match params_of(req.params, "textDocument/prepareRename") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.prepare_rename(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/rename" => match params_of(req.params, "textDocument/rename") {
                        // a refused new name is an error of the request
                        Ok(params) => match self.service.rename(params) {
                            Ok(edit) => spec_ok(req.id, serde_json::to_value(edit)?),
                            Err(message) => Response::new_err(req.id, -1, message),
                        },
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/selectionRange" => match params_of(req.params, "textDocument/selectionRange") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.selection_range(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/semanticTokens/full" => match params_of(req.params, "textDocument/semanticTokens/full") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.semantic_tokens_full(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/semanticTokens/range" => match params_of(req.params, "textDocument/semanticTokens/range") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.semantic_tokens_range(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    "textDocument/documentSymbol" => match params_of(req.params, "textDocument/documentSymbol") {
                        Ok(params) => spec_ok(req.id, serde_json::to_value(self.service.document_symbol(params))?),
                        Err(error) => spec_invalid(req.id, error),
                    },
                    _ => Response::new_err(req.id, ErrorCode::MethodNotFound as i32, format!("unsupported method `{}`", req.method)),
                };
                conn.sender.send(Message::Response(response))?;
            }
            // no notification is answered
            Message::Notification(notification) => {
                if notification.method == "textDocument/didOpen" {
                    if let Ok(params) = params_of(notification.params, "textDocument/didOpen") {
                        self.service.commit(params.text_document.uri, params.text_document.text);
                        spec_push(self, conn, params.text_document.uri)?;
                    }
                } else if notification.method == "textDocument/didChange" {
                    if let Ok(params) = params_of(notification.params, "textDocument/didChange") {
                        // full synchronisation: the last change is the text
                        if let Some(change) = params.content_changes.last() {
                            self.service.commit(params.text_document.uri, change.text);
                            spec_push(self, conn, params.text_document.uri)?;
                        }
                    }
                } else if notification.method == "textDocument/didClose" {
                    if let Ok(params) = params_of(notification.params, "textDocument/didClose") {
                        // closing clears the diagnostics
                        conn.sender.send(Message::Notification(Notification {
                            method: "textDocument/publishDiagnostics",
                            params: serde_json::to_value(PublishDiagnosticsParams { uri: params.text_document.uri, diagnostics: vec![], version: None })?,
                        }))?;
                    }
                }
            }
            Message::Response(_) => {}
        }
        Next
    }

    fn run(&mut self) -> anyhow::Result<()> {
        let (mut connection, io_threads) = Connection::stdio();
        let (id, params) = connection.initialize_start()?;
        let params = serde_json::from_value::<InitializeParams>(params)?;
        self.support_pull_diagnostics = match params.capabilities.text_document {
            Some(it) => it.diagnostic.is_some(),
            None => false,
        };
        connection.initialize_finish(id, serde_json::to_value(self.service.initialize(params))?)?;
        self.server_loop(connection)?;
        io_threads.join()?;
        Ok(())
    }
}

fn spec_ok(id: RequestId, value: Value) -> Response {
    Response { id, result: Some(value), error: None }
}

fn spec_invalid(id: RequestId, error: Error) -> Response {
    Response::new_err(id, ErrorCode::InvalidParams as i32, error.to_string())
}

/// clients that don't ask for diagnostics are told
fn spec_push(it: &mut Server, conn: &mut Connection, uri: Uri) -> anyhow::Result<()> {
    if !it.support_pull_diagnostics {
        conn.sender.send(Message::Notification(Notification {
            method: "textDocument/publishDiagnostics",
            params: serde_json::to_value(it.service.publish_diagnostics(uri))?,
        }))?;
    }
    Ok(())
}
