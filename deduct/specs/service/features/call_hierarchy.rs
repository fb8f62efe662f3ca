//! Contracts of crates/service/src/features/call_hierarchy.rs.

/// the item of a function: its name (or number), its header and where it is
fn spec_item(service: &LanguageService, uri: InternUri, doc: Uri, symbol: &SymbolItem) -> CallHierarchyItem {
    let line_index = service.line_index(uri);
    let root = SyntaxNode::new_root(service.root(uri));
    let name = match symbol.idx.name {
        Some(name) => service.lookup_ident(name),
        None => match symbol.idx.num {
            Some(num) => num.to_string(),
            None => Default::default(),
        },
    };
    CallHierarchyItem {
        name: name,
        kind: SymbolKind::FUNCTION,
        tags: None,
        detail: Some(service.render_func_header(uri, symbol.into())),
        uri: doc,
        range: helpers::rowan_range_to_lsp_range(&line_index, symbol.key.ptr.text_range()),
        selection_range: create_selection_range(symbol, &root, &line_index),
        data: None,
    }
}

/// the declaration of a function at the given range
fn spec_func_at(service: &LanguageService, uri: InternUri, range: Range) -> Option<SymbolItem> {
    let at = helpers::lsp_range_to_rowan_range(&service.line_index(uri), range)?;
    service.symbol_table(uri).symbols.iter().find(|it| it.kind == SymbolItemKind::Func && it.key.ptr.text_range() == at)
}

impl LanguageService {
    /// at a declaration the function itself, at a call what it resolves to
    fn prepare_call_hierarchy(&self, params: CallHierarchyPrepareParams) -> Option<Vec<CallHierarchyItem>> {
        let doc = params.text_document_position_params.text_document.uri;
        let uri = self.uri(doc);
        let token = find_meaningful_token(self, uri, &SyntaxNode::new_root(self.root(uri)), params.text_document_position_params.position)?;
        let at = token.parent()?.text_range();
        let table = self.symbol_table(uri);
        for symbol in table.symbols.iter() {
            if symbol.key.ptr.text_range() == at {
                if symbol.kind == SymbolItemKind::Func {
                    return Some(vec![spec_item(self, uri, doc, symbol)]);
                }
                if symbol.kind == SymbolItemKind::Call {
                    if let Some(defs) = table.find_defs(&symbol.key) {
                        return Some(defs.map(|it| spec_item(self, uri, doc, it)).collect());
                    }
                }
            }
        }
        None
    }

    /// one for every call that refers to the function, in the function around the call, with the range of the calling instruction
    fn call_hierarchy_incoming_calls(&self, params: CallHierarchyIncomingCallsParams) -> Option<Vec<CallHierarchyIncomingCall>> {
        let uri = self.uri(params.item.uri);
        let callee = spec_func_at(self, uri, params.item.range)?;
        let root = SyntaxNode::new_root(self.root(uri));
        let table = self.symbol_table(uri);
        let mut r = vec![];
        for call in table.symbols.iter() {
            if call.kind == SymbolItemKind::Call && call.region == callee.region && call.idx.is_defined_by(&callee.idx) {
                let node = call.key.ptr.to_node(&root);
                if let Some(around) = node.ancestors().find(|it| it.kind() == SyntaxKind::MODULE_FIELD_FUNC) {
                    let key = around.into();
                    if let Some(caller) = table.symbols.iter().find(|it| it.kind == SymbolItemKind::Func && it.key == key) {
                        let ranges = match node.parent() {
                            Some(instr) => vec![helpers::rowan_range_to_lsp_range(&self.line_index(uri), instr.text_range())],
                            None => vec![],
                        };
                        r.push(CallHierarchyIncomingCall { from: spec_item(self, uri, params.item.uri, caller), from_ranges: ranges });
                    }
                }
            }
        }
        Some(r)
    }

    /// one for every function that an operand of a calling instruction inside the function refers to
    fn call_hierarchy_outgoing_calls(&self, params: CallHierarchyOutgoingCallsParams) -> Option<Vec<CallHierarchyOutgoingCall>> {
        let uri = self.uri(params.item.uri);
        let caller = spec_func_at(self, uri, params.item.range)?;
        let table = self.symbol_table(uri);
        let mut r = vec![];
        for node in caller.key.ptr.to_node(&SyntaxNode::new_root(self.root(uri))).descendants() {
            if node.kind() == SyntaxKind::PLAIN_INSTR && is_call(&node) {
                for operand in node.children() {
                    if operand.kind() == SyntaxKind::OPERAND {
                        if let Some(defs) = table.find_defs(&operand.into()) {
                            for def in defs {
                                if def.kind == SymbolItemKind::Func {
                                    r.push(CallHierarchyOutgoingCall {
                                        to: spec_item(self, uri, self.lookup_uri(uri), def),
                                        from_ranges: vec![helpers::rowan_range_to_lsp_range(&self.line_index(uri), node.text_range())],
                                    });
                                }
                            }
                        }
                    }
                }
            }
        }
        Some(r)
    }
}

/// the name, otherwise the keyword, otherwise all of it
fn create_selection_range(symbol: &SymbolItem, root: &SyntaxNode, line_index: &LineIndex) -> Range {
    let node = symbol.key.ptr.to_node(root);
    let range = match token(&node, SyntaxKind::IDENT) {
        Some(it) => it.text_range(),
        None => match token(&node, SyntaxKind::KEYWORD) {
            Some(it) => it.text_range(),
            None => node.text_range(),
        },
    };
    helpers::rowan_range_to_lsp_range(line_index, range)
}
