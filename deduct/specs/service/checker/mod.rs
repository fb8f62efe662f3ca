//! Contracts of crates/service/src/checker/mod.rs.

/// the syntax errors, then what the checks of each node say in document order, then undefined and duplicated names
fn check(service: &LanguageService, uri: InternUri) -> Vec<Diagnostic> {
    let line_index = service.line_index(uri);
    let root = SyntaxNode::new_root(service.root(uri));
    let table = service.symbol_table(uri);
    let mut diags = service.parser_result(uri).1;
    for node in root.descendants() {
        let kind = node.kind();
        if kind == SyntaxKind::ROOT {
            multi_modules::check(&mut diags, &line_index, &node);
        }
        if kind == SyntaxKind::MODULE_FIELD_FUNC || kind == SyntaxKind::MODULE_FIELD_GLOBAL {
            typeck::check_stacked(&mut diags, service, uri, &line_index, &node, &table);
        }
        if kind == SyntaxKind::PLAIN_INSTR {
            literal_operands::check(&mut diags, &line_index, &node);
            typeck::check_folded(&mut diags, service, uri, &line_index, node, &table);
        }
    }
    undef::check(service, &mut diags, &line_index, &table);
    dup_names::check(service, &mut diags, uri, &line_index, &root, &table);
    diags
}
