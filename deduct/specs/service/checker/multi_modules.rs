//! Contracts of crates/service/src/checker/multi_modules.rs.

/// every module but the first one
fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, root: &SyntaxNode) {
    let modules = root.children().filter(|it| it.kind() == SyntaxKind::MODULE);
    for module in modules.skip(1) {
        diags.push(Diagnostic {
            range: helpers::rowan_range_to_lsp_range(line_index, module.text_range()),
            severity: Some(DiagnosticSeverity::ERROR),
            source: Some("wat".into()),
            message: "only one module is allowed in one file".into(),
            ..Default::default()
        });
    }
}
