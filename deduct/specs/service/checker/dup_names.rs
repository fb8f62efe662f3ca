//! Contracts of crates/service/src/checker/dup_names.rs.

/// where a declaration is reported: at its name
fn get_ident_range(symbol: &SymbolItem, root: &SyntaxNode) -> TextRange {
    match token(&symbol.key.ptr.to_node(root), SyntaxKind::IDENT) {
        Some(ident) => ident.text_range(),
        None => symbol.key.ptr.text_range(),
    }
}

fn spec_declares(kind: SymbolItemKind) -> bool {
    kind == SymbolItemKind::Func || kind == SymbolItemKind::Param || kind == SymbolItemKind::Local || kind == SymbolItemKind::Type
        || kind == SymbolItemKind::GlobalDef || kind == SymbolItemKind::MemoryDef || kind == SymbolItemKind::TableDef
}

fn spec_duplicate(line_index: &LineIndex, range: TextRange, name: String, related: Vec<DiagnosticRelatedInformation>) -> Diagnostic {
    Diagnostic {
        range: helpers::rowan_range_to_lsp_range(line_index, range),
        severity: Some(DiagnosticSeverity::ERROR),
        source: Some("wat".into()),
        message: format!("duplicated name `{}` in this scope", name),
        related_information: Some(related),
        ..Default::default()
    }
}

fn spec_already(service: &LanguageService, uri: InternUri, line_index: &LineIndex, range: TextRange, name: String) -> DiagnosticRelatedInformation {
    DiagnosticRelatedInformation {
        location: Location { uri: service.lookup_uri(uri), range: helpers::rowan_range_to_lsp_range(line_index, range) },
        message: format!("already defined here as `{}`", name),
    }
}

/// one diagnostic for each declaration that shares its name and scope with another one, which lists all the others;
/// one for each label that is in conflict with labels around it or inside it
fn check(service: &LanguageService, diags: &mut Vec<Diagnostic>, uri: InternUri, line_index: &LineIndex, root: &SyntaxNode, symbol_table: &SymbolTable) {
    let mut groups = FxHashMap::default();
    for symbol in symbol_table.symbols.iter() {
        if spec_declares(symbol.kind) && symbol.idx.name.is_some() {
            groups.entry((symbol.idx.name.unwrap(), symbol.region)).or_default().push(symbol);
        }
    }
    for group in groups.iter() {
        if group.1.len() > 1 {
            for symbol in group.1.iter() {
                let name = service.lookup_ident(group.0.0);
                let mut related = vec![];
                for other in group.1.iter() {
                    if other != symbol {
                        related.push(spec_already(service, uri, line_index, get_ident_range(other, root), name));
                    }
                }
                diags.push(spec_duplicate(line_index, get_ident_range(symbol, root), name, related));
            }
        }
    }

    let mut labels = FxHashMap::default();
    for symbol in symbol_table.symbols.iter() {
        if symbol.kind == SymbolItemKind::BlockDef && symbol.idx.name.is_some() {
            let name = symbol.idx.name.unwrap();
            let key = (symbol, name);
            // the blocks around it
            let mut current = symbol;
            loop {
                let around = symbol_table.symbols.iter().find(|it| it.key == current.region);
                if around.is_none() || around.unwrap().kind != SymbolItemKind::BlockDef {
                    break;
                }
                if around.unwrap().idx.name == Some(name) {
                    labels.entry(key).or_default().push(get_ident_range(around.unwrap(), root));
                }
                current = around.unwrap();
            }
            // the blocks inside it
            let mut inside = vec![];
            for other in symbol_table.symbols.iter() {
                if other != symbol && other.kind == SymbolItemKind::BlockDef && other.idx.name == Some(name)
                    && symbol.key.ptr.text_range().contains_range(other.key.ptr.text_range()) {
                    inside.push(get_ident_range(other, root));
                }
            }
            labels.entry(key).or_default().extend(inside);
        }
    }
    for group in labels.iter() {
        if group.1.len() > 1 {
            let mut ranges = group.1;
            ranges.sort_by_key(|it| it.start());
            let name = service.lookup_ident(group.0.1);
            let mut related = vec![];
            for range in ranges {
                related.push(spec_already(service, uri, line_index, range, name));
            }
            diags.push(spec_duplicate(line_index, get_ident_range(group.0.0, root), name, related));
        }
    }
}
