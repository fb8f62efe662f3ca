//! Contracts of crates/service/src/checker/undef.rs.

/// a use that resolves to nothing
fn spec_undefined(table: &SymbolTable, symbol: &SymbolItem) -> bool {
    let kind = symbol.kind;
    if kind == SymbolItemKind::Call || kind == SymbolItemKind::TypeUse || kind == SymbolItemKind::GlobalRef || kind == SymbolItemKind::MemoryRef || kind == SymbolItemKind::TableRef {
        match table.find_defs(&symbol.key) {
            Some(defs) => defs.next().is_none(),
            None => true,
        }
    } else if kind == SymbolItemKind::LocalRef {
        table.find_param_or_local_def(&symbol.key).is_none()
    } else if kind == SymbolItemKind::BlockRef {
        table.blocks.iter().all(|block| !(block.0 == symbol.key && symbol.idx.is_defined_by(block.2)))
    } else {
        false
    }
}

fn spec_use_text(service: &LanguageService, idx: &Idx) -> String {
    if let Some(name) = idx.name {
        service.lookup_ident(name)
    } else if let Some(num) = idx.num {
        num.to_string()
    } else {
        Default::default()
    }
}

fn check(service: &LanguageService, diags: &mut Vec<Diagnostic>, line_index: &LineIndex, table: &SymbolTable) {
    for symbol in table.symbols.iter() {
        if spec_undefined(table, symbol) {
            diags.push(Diagnostic {
                range: helpers::rowan_range_to_lsp_range(line_index, symbol.key.ptr.text_range()),
                severity: Some(DiagnosticSeverity::ERROR),
                source: Some("wat".into()),
                message: format!("cannot find `{}` in this scope", spec_use_text(service, &symbol.idx)),
                ..Default::default()
            });
        }
    }
}
