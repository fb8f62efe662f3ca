//! Contracts of crates/service/src/files.rs: everything known of a document is computed from its current text.
fn get_line_index(db: &dyn FilesCtx, uri: InternUri) -> Rc<LineIndex> {
    Rc::new(LineIndex::new(&db.source(uri)))
}

/// the parser's tree and one diagnostic for each of its errors, at the error's place
fn parse(db: &dyn FilesCtx, uri: InternUri) -> (GreenNode, Vec<Diagnostic>) {
    let line_index = db.line_index(uri);
    let mut parser = Parser::new(&db.source(uri));
    let green = parser.parse_to_green();
    let mut diags = vec![];
    for error in parser.errors() {
        diags.push(Diagnostic {
            range: Range::new(
                helpers::rowan_pos_to_lsp_pos(&line_index, TextSize::new(error.start as u32)),
                helpers::rowan_pos_to_lsp_pos(&line_index, TextSize::new(error.end as u32)),
            ),
            severity: Some(DiagnosticSeverity::ERROR),
            source: Some("wat".into()),
            message: format!("syntax error: {}", error.message),
            ..Default::default()
        });
    }
    (green, diags)
}

fn root(db: &dyn FilesCtx, uri: InternUri) -> GreenNode {
    db.parser_result(uri).0
}
