//! Contracts of crates/service/src/features/definition.rs.

/// the operand or index at the position of the request
fn spec_use_at(service: &LanguageService, uri: InternUri, root: &SyntaxNode, params: &GotoDefinitionParams) -> Option<SyntaxNode> {
    let parent = find_meaningful_token(service, uri, root, params.text_document_position_params.position)?.parent()?;
    if parent.kind() == SyntaxKind::OPERAND || parent.kind() == SyntaxKind::INDEX {
        Some(parent)
    } else {
        None
    }
}

impl LanguageService {
    /// the parameter or local, else the module fields, else the block that the use denotes
    fn goto_definition(&self, params: GotoDefinitionParams) -> Option<GotoDefinitionResponse> {
        let uri = self.uri(params.text_document_position_params.text_document.uri);
        let root = SyntaxNode::new_root(self.root(uri));
        let user = spec_use_at(self, uri, &root, &params)?;
        let line_index = self.line_index(uri);
        let table = self.symbol_table(uri);
        let key = user.into();
        if let Some(symbol) = table.find_param_or_local_def(&key) {
            return Some(GotoDefinitionResponse::Scalar(create_location_by_symbol(&params, &line_index, symbol, &root)));
        }
        if let Some(symbols) = table.find_defs(&key) {
            return Some(GotoDefinitionResponse::Array(symbols.map(|it| create_location_by_symbol(&params, &line_index, it, &root)).collect()));
        }
        if let Some(symbol) = table.find_block_def(&key) {
            return Some(GotoDefinitionResponse::Scalar(create_location_by_symbol(&params, &line_index, symbol, &root)));
        }
        None
    }

    /// the types of the functions that the operand of an instruction denotes
    fn goto_type_definition(&self, params: GotoDefinitionParams) -> Option<GotoDefinitionResponse> {
        let uri = self.uri(params.text_document_position_params.text_document.uri);
        let root = SyntaxNode::new_root(self.root(uri));
        let user = spec_use_at(self, uri, &root, &params)?;
        let line_index = self.line_index(uri);
        let table = self.symbol_table(uri);
        if user.parent()?.kind() != SyntaxKind::PLAIN_INSTR {
            return None;
        }
        let mut r = vec![];
        for symbol in table.find_defs(&user.into())? {
            if let Some(type_use) = child::<TypeUse>(&symbol.key.ptr.to_node(&root)) {
                if let Some(index) = type_use.index() {
                    if let Some(types) = table.find_defs(&index.syntax().into()) {
                        for it in types {
                            r.push(create_location_by_symbol(&params, &line_index, it, &root));
                        }
                    }
                }
            }
        }
        Some(GotoDefinitionResponse::Array(r))
    }

    fn goto_declaration(&self, params: GotoDefinitionParams) -> Option<GotoDefinitionResponse> {
        let uri = self.uri(params.text_document_position_params.text_document.uri);
        let root = SyntaxNode::new_root(self.root(uri));
        let parent = find_meaningful_token(self, uri, &root, params.text_document_position_params.position)?.parent()?;
        let line_index = self.line_index(uri);
        let table = self.symbol_table(uri);
        if parent.kind() != SyntaxKind::OPERAND {
            return None;
        }
        let symbols = table.find_defs(&parent.into())?;
        Some(GotoDefinitionResponse::Array(symbols.map(|it| create_location_by_symbol(&params, &line_index, it, &root)).collect()))
    }
}

/// the identifier of a declaration, else its keyword, else all of it
fn create_location_by_symbol(params: &GotoDefinitionParams, line_index: &LineIndex, symbol: &SymbolItem, root: &SyntaxNode) -> Location {
    let node = symbol.key.ptr.to_node(root);
    let range = if let Some(ident) = token(&node, SyntaxKind::IDENT) {
        ident.text_range()
    } else if let Some(keyword) = token(&node, SyntaxKind::KEYWORD) {
        keyword.text_range()
    } else {
        node.text_range()
    };
    Location { uri: params.text_document_position_params.text_document.uri, range: helpers::rowan_range_to_lsp_range(line_index, range) }
}
