//! Contracts of crates/service/src/features/rename.rs.
impl LanguageService {
    fn prepare_rename(&self, params: TextDocumentPositionParams) -> Option<PrepareRenameResponse> {
        let uri = self.uri(params.text_document.uri);
        let token = find_meaningful_token(self, uri, &SyntaxNode::new_root(self.root(uri)), params.position)?;
        if token.kind() == SyntaxKind::IDENT {
            Some(PrepareRenameResponse::Range(helpers::rowan_range_to_lsp_range(&self.line_index(uri), token.text_range())))
        } else {
            None
        }
    }

    /// edits exactly the occurrences of the old name that belong to the symbol at the position
    fn rename_impl(&self, params: RenameParams, ident_token: SyntaxToken) -> Option<WorkspaceEdit> {
        let uri = self.uri(params.text_document_position.text_document.uri);
        let line_index = self.line_index(uri);
        let root = SyntaxNode::new_root(self.root(uri));
        let table = self.symbol_table(uri);
        let old_name = self.ident(ident_token.text());
        let direct = ident_token.parent()?;
        let owner = if direct.kind() == SyntaxKind::BLOCK_IF_ELSE { direct.parent()? } else { direct };
        let key = owner.into();
        let symbol = table.symbols.iter().find(|it| it.key == key)?;
        let label = symbol.kind == SymbolItemKind::BlockDef || symbol.kind == SymbolItemKind::BlockRef;
        let block = if symbol.kind == SymbolItemKind::BlockDef { Some(symbol) } else { table.find_block_def(&key) };
        let mut edits = vec![];
        for it in table.symbols.iter() {
            let touched = if it.kind == SymbolItemKind::BlockDef {
                block == Some(it)
            } else if it.kind == SymbolItemKind::BlockRef {
                symbol == it || block.is_some() && table.find_block_def(&it.key) == block
            } else if it.kind == SymbolItemKind::Module {
                false
            } else {
                !label && it.region == symbol.region && it.idx.name == Some(old_name)
            };
            if touched {
                for token in ident_tokens(it.key.ptr.to_node(&root)) {
                    if token.text() == ident_token.text() {
                        edits.push(TextEdit { range: helpers::rowan_range_to_lsp_range(&line_index, token.text_range()), new_text: params.new_name });
                    }
                }
            }
        }
        let mut changes = HashMap::new();
        changes.insert(params.text_document_position.text_document.uri, edits);
        Some(WorkspaceEdit { changes: Some(changes), ..Default::default() })
    }
}

/// the identifiers of a node and of its else branch
fn ident_tokens(node: SyntaxNode) -> impl Iterator<Item = SyntaxToken> {
    let mut r = vec![];
    for it in node.children_with_tokens() {
        if let Some(token) = it.into_token() {
            if token.kind() == SyntaxKind::IDENT {
                r.push(token);
            }
        }
    }
    if let Some(branch) = node.children().find(|it| it.kind() == SyntaxKind::BLOCK_IF_ELSE) {
        for it in branch.children_with_tokens() {
            if let Some(token) = it.into_token() {
                if token.kind() == SyntaxKind::IDENT {
                    r.push(token);
                }
            }
        }
    }
    r
}
