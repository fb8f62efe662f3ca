//! Contracts of crates/service/src/features/selection_range.rs.

/// the range of every node around, innermost first
fn get_parent_range(current: SyntaxNode, line_index: &LineIndex) -> Option<Box<SelectionRange>> {
    match current.parent() {
        Some(parent) => Some(Box::new(SelectionRange {
            range: helpers::rowan_range_to_lsp_range(line_index, parent.text_range()),
            parent: get_parent_range(parent, line_index),
        })),
        None => None,
    }
}

impl LanguageService {
    /// for every position with a token: its range, then those of the nodes around
    fn selection_range(&self, params: SelectionRangeParams) -> Option<Vec<SelectionRange>> {
        let uri = self.uri(params.text_document.uri);
        let line_index = self.line_index(uri);
        let root = SyntaxNode::new_root(self.root(uri));
        let mut r = vec![];
        for position in params.positions {
            if let Some(token) = find_meaningful_token(self, uri, &root, position) {
                r.push(SelectionRange {
                    range: helpers::rowan_range_to_lsp_range(&line_index, token.text_range()),
                    parent: match token.parent() {
                        Some(parent) => Some(Box::new(SelectionRange {
                            range: helpers::rowan_range_to_lsp_range(&line_index, parent.text_range()),
                            parent: get_parent_range(parent, &line_index),
                        })),
                        None => None,
                    },
                });
            }
        }
        Some(r)
    }
}
