//! Contracts of crates/service/src/features/folding_range.rs.
impl LanguageService {
    /// every node with a keyword or a parenthesis of its own that spans several lines
    fn folding_range(&self, params: FoldingRangeParams) -> Option<Vec<FoldingRange>> {
        let uri = self.uri(params.text_document.uri);
        let line_index = self.line_index(uri);
        let mut r = vec![];
        for node in SyntaxNode::new_root(self.root(uri)).descendants() {
            if token(&node, SyntaxKind::KEYWORD).is_some() || token(&node, SyntaxKind::L_PAREN).is_some() {
                let range = helpers::rowan_range_to_lsp_range(&line_index, node.text_range());
                if range.start.line != range.end.line {
                    r.push(FoldingRange {
                        start_line: range.start.line,
                        start_character: Some(range.start.character),
                        end_line: range.end.line,
                        end_character: Some(range.end.character),
                        kind: Some(FoldingRangeKind::Region),
                        collapsed_text: None,
                    });
                }
            }
        }
        Some(r)
    }
}
