//! Contracts of crates/service/src/features/formatting.rs: one edit with what the formatter says, at the range it says.
impl LanguageService {
    fn formatting(&self, params: DocumentFormattingParams) -> Option<Vec<TextEdit>> {
        let uri = self.uri(params.text_document.uri);
        let root = Root::cast(SyntaxNode::new_root(self.root(uri)))?;
        Some(vec![TextEdit {
            range: helpers::rowan_range_to_lsp_range(&self.line_index(uri), root.syntax().text_range()),
            new_text: wat_formatter::format(&root, &build_options(&params.options)),
        }])
    }

    fn range_formatting(&self, params: DocumentRangeFormattingParams) -> Option<Vec<TextEdit>> {
        let uri = self.uri(params.text_document.uri);
        let line_index = self.line_index(uri);
        let root = Root::cast(SyntaxNode::new_root(self.root(uri)))?;
        let range = helpers::lsp_range_to_rowan_range(&line_index, params.range)?;
        let formatted = wat_formatter::format_range(&root, &build_options(&params.options), range, &line_index)?;
        Some(vec![TextEdit { range: helpers::rowan_range_to_lsp_range(&line_index, formatted.1), new_text: formatted.0 }])
    }
}

fn build_options(options: &FormattingOptions) -> FormatOptions {
    FormatOptions {
        layout: LayoutOptions { indent_width: options.tab_size as usize, use_tabs: !options.insert_spaces, ..Default::default() },
        language: Default::default(),
    }
}
