//! Contracts of crates/service/src/binder.rs: `ensures result == <body>` for every function below.
//! Functions called `spec_*` are definitions used by the contracts.

/// the nearest node of the given kind that contains `node` (or is it)
fn spec_enclosing(node: SyntaxNode, kind: SyntaxKind) -> Option<SyntaxNode> {
    node.ancestors().find(|it| it.kind() == kind)
}

/// the name that a declaration gives itself
fn spec_own_name(db: &dyn SymbolTablesCtx, node: SyntaxNode) -> Option<InternIdent> {
    match token(&node, SyntaxKind::IDENT) {
        Some(ident) => Some(db.ident(ident.text())),
        None => None,
    }
}

fn spec_symbol(node: SyntaxNode, region: SymbolItemKey, kind: SymbolItemKind, num: Option<u32>, name: Option<InternIdent>) -> SymbolItem {
    SymbolItem { key: node.into(), green: node.green().into(), region: region, kind: kind, idx: Idx { num: num, name: name } }
}

/// a declaration directly below its scope
fn create_parent_based_symbol(db: &dyn SymbolTablesCtx, node: SyntaxNode, id: u32, kind: SymbolItemKind) -> Option<SymbolItem> {
    let scope = node.parent()?;
    Some(spec_symbol(node, scope.into(), kind, Some(id), spec_own_name(db, node)))
}

/// an imported declaration: its scope is the module around the import field
fn create_import_desc_symbol(db: &dyn SymbolTablesCtx, node: &SyntaxNode, id: u32, kind: SymbolItemKind) -> Option<SymbolItem> {
    let import = node.parent()?;
    let module = import.parent()?;
    Some(spec_symbol(node, module.into(), kind, Some(id), spec_own_name(db, node)))
}

/// a use: by name if there is an identifier, otherwise by the number written
fn create_ref_symbol(db: &dyn SymbolTablesCtx, node: SyntaxNode, region: SymbolItemKey, kind: SymbolItemKind) -> Option<SymbolItem> {
    if let Some(ident) = token(&node, SyntaxKind::IDENT) {
        return Some(spec_symbol(node, region, kind, None, Some(db.ident(ident.text()))));
    }
    let number = node
        .children_with_tokens()
        .filter_map(|it| it.into_token())
        .find(|it| it.kind() == SyntaxKind::UNSIGNED_INT || it.kind() == SyntaxKind::INT)?;
    let num = parse_index(number.text())?;
    Some(spec_symbol(node, region, kind, Some(num), None))
}

/// in decimal or hexadecimal, underscores do not count
fn parse_index(text: &str) -> Option<u32> {
    let digits = text.replace('_', "");
    if let Some(hex) = digits.strip_prefix("0x") {
        u32::from_str_radix(hex, 16).ok()
    } else {
        digits.parse().ok()
    }
}

/// blocks whose labels are visible at `node`: everything inside a block or loop, and the branches of an `if`
fn label_scope(node: SyntaxNode) -> Option<SyntaxNode> {
    let kind = node.kind();
    if kind == SyntaxKind::BLOCK_BLOCK || kind == SyntaxKind::BLOCK_LOOP {
        Some(node)
    } else if kind == SyntaxKind::BLOCK_IF_THEN || kind == SyntaxKind::BLOCK_IF_ELSE {
        node.parent()
    } else {
        None
    }
}

fn spec_index_use(db: &dyn SymbolTablesCtx, node: SyntaxNode, kind: SymbolItemKind) -> Option<SymbolItem> {
    let module = spec_enclosing(node, SyntaxKind::MODULE)?;
    let index = node.children().find(|it| it.kind() == SyntaxKind::INDEX)?;
    create_ref_symbol(db, index, module.into(), kind)
}

/// every operand of an instruction is a use
fn spec_operand_uses(db: &dyn SymbolTablesCtx, node: SyntaxNode, scope: SyntaxKind, kind: SymbolItemKind) -> Vec<SymbolItem> {
    match spec_enclosing(node, scope) {
        Some(region) => node.children().filter_map(|it| create_ref_symbol(db, it, region.into(), kind)).collect(),
        None => vec![],
    }
}

/// Declarations and uses of a document in document order.
/// Fields of a module are numbered in document order, parameters before locals, unnamed ones per value type.
fn create_symbol_table(db: &dyn SymbolTablesCtx, uri: InternUri) -> Rc<SymbolTable> {
    let mut next_field = 0;
    let mut symbols = vec![];
    let mut blocks = vec![];
    for node in SyntaxNode::new_root(db.root(uri)).descendants() {
        let kind = node.kind();
        if kind == SyntaxKind::MODULE {
            next_field = 0;
            if let Some(parent) = node.parent() {
                symbols.push(spec_symbol(node, parent.into(), SymbolItemKind::Module, None, None));
            }
        } else if kind == SyntaxKind::MODULE_FIELD_FUNC {
            symbols.extend(create_parent_based_symbol(db, node, next_field, SymbolItemKind::Func));
            next_field = next_field + 1;
            if let Some(func) = ModuleFieldFunc::cast(node) {
                let mut i = 0;
                for type_use in func.type_use().iter() {
                    for param in type_use.params() {
                        if let Some(ident) = param.ident_token() {
                            symbols.push(spec_symbol(param.syntax(), node.into(), SymbolItemKind::Param, Some(i), Some(db.ident(ident.text()))));
                            i = i + 1;
                        } else {
                            for ty in param.val_types() {
                                symbols.push(spec_symbol(ty.syntax(), node.into(), SymbolItemKind::Param, Some(i), None));
                                i = i + 1;
                            }
                        }
                    }
                }
                for local in func.locals() {
                    if let Some(ident) = local.ident_token() {
                        symbols.push(spec_symbol(local.syntax(), node.into(), SymbolItemKind::Local, Some(i), Some(db.ident(ident.text()))));
                        i = i + 1;
                    } else {
                        for ty in local.val_types() {
                            symbols.push(spec_symbol(ty.syntax(), node.into(), SymbolItemKind::Local, Some(i), None));
                            i = i + 1;
                        }
                    }
                }
            }
        } else if kind == SyntaxKind::MODULE_FIELD_TYPE {
            symbols.extend(create_parent_based_symbol(db, node, next_field, SymbolItemKind::Type));
            next_field = next_field + 1;
        } else if kind == SyntaxKind::MODULE_FIELD_GLOBAL {
            symbols.extend(create_parent_based_symbol(db, node, next_field, SymbolItemKind::GlobalDef));
            next_field = next_field + 1;
        } else if kind == SyntaxKind::MODULE_FIELD_MEMORY {
            symbols.extend(create_parent_based_symbol(db, node, next_field, SymbolItemKind::MemoryDef));
            next_field = next_field + 1;
        } else if kind == SyntaxKind::MODULE_FIELD_TABLE {
            symbols.extend(create_parent_based_symbol(db, node, next_field, SymbolItemKind::TableDef));
            next_field = next_field + 1;
        } else if kind == SyntaxKind::IMPORT_DESC_TYPE_USE {
            symbols.extend(create_import_desc_symbol(db, &node, next_field, SymbolItemKind::Func));
            next_field = next_field + 1;
        } else if kind == SyntaxKind::IMPORT_DESC_TABLE_TYPE {
            symbols.extend(create_import_desc_symbol(db, &node, next_field, SymbolItemKind::TableDef));
            next_field = next_field + 1;
        } else if kind == SyntaxKind::IMPORT_DESC_MEMORY_TYPE {
            symbols.extend(create_import_desc_symbol(db, &node, next_field, SymbolItemKind::MemoryDef));
            next_field = next_field + 1;
        } else if kind == SyntaxKind::IMPORT_DESC_GLOBAL_TYPE {
            symbols.extend(create_import_desc_symbol(db, &node, next_field, SymbolItemKind::GlobalDef));
            next_field = next_field + 1;
        } else if kind == SyntaxKind::MODULE_FIELD_START || kind == SyntaxKind::EXPORT_DESC_FUNC {
            symbols.extend(spec_index_use(db, node, SymbolItemKind::Call));
        } else if kind == SyntaxKind::TYPE_USE {
            symbols.extend(spec_index_use(db, node, SymbolItemKind::TypeUse));
        } else if kind == SyntaxKind::EXPORT_DESC_MEMORY || kind == SyntaxKind::MEM_USE {
            symbols.extend(spec_index_use(db, node, SymbolItemKind::MemoryRef));
        } else if kind == SyntaxKind::EXPORT_DESC_TABLE {
            symbols.extend(spec_index_use(db, node, SymbolItemKind::TableRef));
        } else if kind == SyntaxKind::BLOCK_BLOCK || kind == SyntaxKind::BLOCK_IF || kind == SyntaxKind::BLOCK_LOOP {
            symbols.extend(create_parent_based_symbol(db, node, 0, SymbolItemKind::BlockDef));
        } else if kind == SyntaxKind::PLAIN_INSTR {
            if let Some(instr) = PlainInstr::cast(node) {
                if let Some(name) = instr.instr_name() {
                    let name = name.text();
                    if name == "call" || name == "ref.func" || name == "return_call" {
                        symbols.extend(spec_operand_uses(db, node, SyntaxKind::MODULE, SymbolItemKind::Call));
                    } else if name == "local.get" || name == "local.set" || name == "local.tee" {
                        symbols.extend(spec_operand_uses(db, node, SyntaxKind::MODULE_FIELD_FUNC, SymbolItemKind::LocalRef));
                    } else if name == "global.get" || name == "global.set" {
                        symbols.extend(spec_operand_uses(db, node, SyntaxKind::MODULE, SymbolItemKind::GlobalRef));
                    } else if name == "table.get" || name == "table.set" || name == "table.size" || name == "table.grow" || name == "table.fill" || name == "table.copy" {
                        symbols.extend(spec_operand_uses(db, node, SyntaxKind::MODULE, SymbolItemKind::TableRef));
                    } else if name == "table.init" {
                        if let Some(module) = spec_enclosing(node, SyntaxKind::MODULE) {
                            // a single index is that of the element segment
                            let mut indexes = instr.operands().take_while(|operand| operand.instr().is_none());
                            let first = indexes.next();
                            let second = indexes.next();
                            if let Some(table) = first {
                                if second.is_some() {
                                    symbols.extend(create_ref_symbol(db, table.syntax(), module.into(), SymbolItemKind::TableRef));
                                }
                            }
                        }
                    } else if name == "br" || name == "br_if" || name == "br_table" {
                        let around: Vec<SyntaxNode> = node.ancestors().filter_map(label_scope).collect();
                        if let Some(innermost) = around.first() {
                            for operand in node.children() {
                                if let Some(symbol) = create_ref_symbol(db, operand, innermost.into(), SymbolItemKind::BlockRef) {
                                    for (level, block) in (0..).zip(&around) {
                                        blocks.push((symbol.key, block.into(), Idx { num: Some(level), name: spec_own_name(db, block) }));
                                    }
                                    symbols.push(symbol);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    Rc::new(SymbolTable { symbols: symbols, blocks: blocks })
}

impl SymbolTable {
    /// the declarations of the right kind and scope that define the use
    fn find_defs(&self, key: &SymbolItemKey) -> Option<impl Iterator<Item = &SymbolItem>> {
        let user = self.symbols.iter().find(|symbol| symbol.key == key)?;
        let wanted = if user.kind == SymbolItemKind::Call {
            SymbolItemKind::Func
        } else if user.kind == SymbolItemKind::TypeUse {
            SymbolItemKind::Type
        } else if user.kind == SymbolItemKind::GlobalRef {
            SymbolItemKind::GlobalDef
        } else if user.kind == SymbolItemKind::MemoryRef {
            SymbolItemKind::MemoryDef
        } else if user.kind == SymbolItemKind::TableRef {
            SymbolItemKind::TableDef
        } else {
            return None;
        };
        Some(self.symbols.iter().filter(|it| it.kind == wanted && user.idx.is_defined_by(&it.idx) && it.region == user.region))
    }

    fn find_local_ref(&self, key: &SymbolItemKey) -> Option<&SymbolItem> {
        self.symbols.iter().find(|it| it.key == key && it.kind == SymbolItemKind::LocalRef)
    }

    fn find_block_ref(&self, key: &SymbolItemKey) -> Option<&SymbolItem> {
        self.symbols.iter().find(|it| it.key == key && it.kind == SymbolItemKind::BlockRef)
    }

    fn find_param_def(&self, key: &SymbolItemKey) -> Option<&SymbolItem> {
        let local = self.find_local_ref(key)?;
        self.symbols.iter().find(|it| it.kind == SymbolItemKind::Param && it.region == local.region && local.idx.is_defined_by(&it.idx))
    }

    fn find_param_or_local_def(&self, key: &SymbolItemKey) -> Option<&SymbolItem> {
        let local = self.find_local_ref(key)?;
        self.symbols.iter().find(|it| {
            (it.kind == SymbolItemKind::Param || it.kind == SymbolItemKind::Local) && it.region == local.region && local.idx.is_defined_by(&it.idx)
        })
    }

    /// the innermost enclosing block with that label or at that depth
    fn find_block_def(&self, key: &SymbolItemKey) -> Option<&SymbolItem> {
        let user = self.find_block_ref(key)?;
        for block in self.blocks.iter() {
            if block.0 == key && user.idx.is_defined_by(block.2) {
                return self.symbols.iter().find(|it| it.key == block.1);
            }
        }
        None
    }

    fn get_declared_fields(&self, node: SyntaxNode, kind: SymbolItemKind) -> impl Iterator<Item = &SymbolItem> {
        self.symbols.iter().filter(|it| it.region == node.into() && it.kind == kind)
    }

    fn get_declared_params_and_locals(&self, node: SyntaxNode) -> impl Iterator<Item = &SymbolItem> {
        self.symbols.iter().filter(|it| it.region == node.into() && (it.kind == SymbolItemKind::Param || it.kind == SymbolItemKind::Local))
    }
}
