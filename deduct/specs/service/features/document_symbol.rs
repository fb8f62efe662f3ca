//! Contracts of crates/service/src/features/document_symbol.rs.

fn spec_symbol_name(service: &LanguageService, symbol: &SymbolItem) -> String {
    if let Some(name) = symbol.idx.name {
        service.lookup_ident(name)
    } else if let Some(num) = symbol.idx.num {
        num.to_string()
    } else {
        Default::default()
    }
}

impl LanguageService {
    /// the item that describes a module, a field with a name in it or a local: its range is that of the construct,
    /// the selected range that of its name in it
    fn symbol_item(&self, symbol: &SymbolItem, line_index: &LineIndex, root: &SyntaxNode) -> Option<(SymbolItemKey, DocumentSymbol)> {
        let kind = symbol.kind;
        let range = helpers::rowan_range_to_lsp_range(line_index, symbol.key.ptr.text_range());
        if kind == SymbolItemKind::Module {
            Some((symbol.key, DocumentSymbol {
                name: "module".into(),
                detail: None,
                kind: SymbolKind::MODULE,
                tags: None,
                deprecated: None,
                range: range,
                selection_range: range,
                children: None,
            }))
        } else if kind == SymbolItemKind::Func || kind == SymbolItemKind::Local || kind == SymbolItemKind::Type || kind == SymbolItemKind::GlobalDef
            || kind == SymbolItemKind::MemoryDef || kind == SymbolItemKind::TableDef {
            let selected = if let Some(ident) = token(&symbol.key.ptr.to_node(root), SyntaxKind::IDENT) {
                helpers::rowan_range_to_lsp_range(line_index, ident.text_range())
            } else {
                range
            };
            Some((symbol.key, DocumentSymbol {
                name: spec_symbol_name(self, symbol),
                detail: None,
                kind: if kind == SymbolItemKind::Func { SymbolKind::FUNCTION } else { SymbolKind::VARIABLE },
                tags: None,
                deprecated: None,
                range: range,
                selection_range: selected,
                children: None,
            }))
        } else {
            None
        }
    }
}
