//! Contracts of crates/service/src/features/references.rs.

/// kind of the uses of a declaration
fn spec_use_kind(kind: SymbolItemKind) -> Option<SymbolItemKind> {
    if kind == SymbolItemKind::Func {
        Some(SymbolItemKind::Call)
    } else if kind == SymbolItemKind::Param || kind == SymbolItemKind::Local {
        Some(SymbolItemKind::LocalRef)
    } else if kind == SymbolItemKind::Type {
        Some(SymbolItemKind::TypeUse)
    } else if kind == SymbolItemKind::GlobalDef {
        Some(SymbolItemKind::GlobalRef)
    } else if kind == SymbolItemKind::MemoryDef {
        Some(SymbolItemKind::MemoryRef)
    } else if kind == SymbolItemKind::TableDef {
        Some(SymbolItemKind::TableRef)
    } else {
        None
    }
}

/// kind of the declaration of a use
fn spec_def_kind(kind: SymbolItemKind) -> Option<SymbolItemKind> {
    if kind == SymbolItemKind::Call {
        Some(SymbolItemKind::Func)
    } else if kind == SymbolItemKind::TypeUse {
        Some(SymbolItemKind::Type)
    } else if kind == SymbolItemKind::GlobalRef {
        Some(SymbolItemKind::GlobalDef)
    } else if kind == SymbolItemKind::MemoryRef {
        Some(SymbolItemKind::MemoryDef)
    } else if kind == SymbolItemKind::TableRef {
        Some(SymbolItemKind::TableDef)
    } else {
        None
    }
}

impl LanguageService {
    /// at a declaration: itself (if wanted) and the uses it defines;
    /// at a use: its declarations (if wanted) and the uses that some of them defines; always in document order
    fn find_references(&self, params: ReferenceParams) -> Option<Vec<Location>> {
        let uri = self.uri(params.text_document_position.text_document.uri);
        let root = SyntaxNode::new_root(self.root(uri));
        let token = find_meaningful_token(self, uri, &root, params.text_document_position.position)?;
        let kind = token.kind();
        if !(kind == SyntaxKind::IDENT || kind == SyntaxKind::INT || kind == SyntaxKind::UNSIGNED_INT || kind == SyntaxKind::NUM_TYPE
            || kind == SyntaxKind::VEC_TYPE || kind == SyntaxKind::REF_TYPE || kind == SyntaxKind::KEYWORD)
        {
            return None;
        }
        let key = token.parent()?.into();
        let line_index = self.line_index(uri);
        let table = self.symbol_table(uri);
        let here = table.symbols.iter().find(|it| it.key == key)?;
        let decl = params.context.include_declaration;
        if let Some(users) = spec_use_kind(here.kind) {
            return Some(
                table.symbols.iter()
                    .filter(|it| it.region == here.region
                        && (decl && it.kind == here.kind && it.idx == here.idx || it.kind == users && it.idx.is_defined_by(&here.idx)))
                    .map(|it| create_location_by_symbol(&params, &line_index, it, &root))
                    .collect(),
            );
        }
        if let Some(declared) = spec_def_kind(here.kind) {
            let defs = table.find_defs(&here.key)?;
            return Some(
                table.symbols.iter()
                    .filter(|it| it.region == here.region
                        && (decl && it.kind == declared && here.idx.is_defined_by(&it.idx)
                            || it.kind == here.kind && defs.any(|def| it.idx.is_defined_by(&def.idx))))
                    .map(|it| create_location_by_symbol(&params, &line_index, it, &root))
                    .collect(),
            );
        }
        if here.kind == SymbolItemKind::LocalRef {
            let def = table.find_param_or_local_def(&here.key)?;
            return Some(
                table.symbols.iter()
                    .filter(|it| it.region == here.region
                        && (decl && (it.kind == SymbolItemKind::Param || it.kind == SymbolItemKind::Local) && here.idx.is_defined_by(&it.idx)
                            || it.kind == SymbolItemKind::LocalRef && it.idx.is_defined_by(&def.idx)))
                    .map(|it| create_location_by_symbol(&params, &line_index, it, &root))
                    .collect(),
            );
        }
        if here.kind == SymbolItemKind::BlockDef {
            return Some(get_block_refs(here, &params, &table, &line_index, &root));
        }
        if here.kind == SymbolItemKind::BlockRef {
            return Some(get_block_refs(table.find_block_def(&key)?, &params, &table, &line_index, &root));
        }
        None
    }
}

/// the block itself (if wanted) and the branches that resolve to it
fn get_block_refs(def: &SymbolItem, params: &ReferenceParams, table: &SymbolTable, line_index: &LineIndex, root: &SyntaxNode) -> Vec<Location> {
    let mut r = vec![];
    if params.context.include_declaration {
        r.push(create_location_by_symbol(params, line_index, def, root));
    }
    for (user, block, _) in table.blocks.iter() {
        if block == def.key && table.find_block_def(user) == Some(def) {
            if let Some(symbol) = table.symbols.iter().find(|it| it.key == user) {
                r.push(create_location_by_symbol(params, line_index, symbol, root));
            }
        }
    }
    r
}

/// the identifier of a declaration or use, else its keyword, else all of it
fn create_location_by_symbol(params: &ReferenceParams, line_index: &LineIndex, symbol: &SymbolItem, root: &SyntaxNode) -> Location {
    let node = symbol.key.ptr.to_node(root);
    let range = if let Some(ident) = token(&node, SyntaxKind::IDENT) {
        ident.text_range()
    } else if let Some(keyword) = token(&node, SyntaxKind::KEYWORD) {
        keyword.text_range()
    } else {
        node.text_range()
    };
    Location { uri: params.text_document_position.text_document.uri, range: helpers::rowan_range_to_lsp_range(line_index, range) }
}
