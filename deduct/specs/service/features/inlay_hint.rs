//! Contracts of crates/service/src/features/inlay_hint.rs.

fn spec_hint(line_index: &LineIndex, end: TextSize, label: String, kind: Option<InlayHintKind>) -> InlayHint {
    InlayHint {
        position: helpers::rowan_pos_to_lsp_pos(line_index, end),
        label: InlayHintLabel::String(label),
        kind: kind,
        text_edits: None,
        tooltip: None,
        padding_left: Some(true),
        padding_right: None,
        data: None,
    }
}

impl LanguageService {
    /// after uses of locals and globals in the range their declared type; at the end of named functions their name
    fn inlay_hint(&self, params: InlayHintParams) -> Option<Vec<InlayHint>> {
        let uri = self.uri(params.text_document.uri);
        let line_index = self.line_index(uri);
        let root = SyntaxNode::new_root(self.root(uri));
        let table = self.symbol_table(uri);
        let range = helpers::lsp_range_to_rowan_range(&line_index, params.range)?;
        let mut r = vec![];
        for symbol in table.symbols.iter() {
            let place = symbol.key.ptr.text_range();
            if symbol.kind == SymbolItemKind::LocalRef {
                if range.contains_range(place) {
                    if let Some(def) = table.find_param_or_local_def(&symbol.key) {
                        if let Some(ty) = self.extract_type(def.green) {
                            r.push(spec_hint(&line_index, place.end(), ty.to_string(), Some(InlayHintKind::TYPE)));
                        }
                    }
                }
            } else if symbol.kind == SymbolItemKind::GlobalRef {
                if range.contains_range(place) {
                    if let Some(defs) = table.find_defs(&symbol.key) {
                        if let Some(def) = defs.next() {
                            if let Some(ty) = self.extract_global_type(def.green) {
                                r.push(spec_hint(&line_index, place.end(), ty.to_string(), Some(InlayHintKind::TYPE)));
                            }
                        }
                    }
                }
            } else if symbol.kind == SymbolItemKind::Func {
                if let Some(name) = symbol.idx.name {
                    if let Some(last) = symbol.key.ptr.to_node(&root).last_child_or_token() {
                        if range.contains_range(last.text_range()) {
                            r.push(spec_hint(&line_index, last.text_range().end(), format!("(func {})", self.lookup_ident(name)), None));
                        }
                    }
                }
            }
        }
        Some(r)
    }
}
