//! Contracts of crates/service/src/features/completion.rs.

/// the token left of the position, or around it
fn find_token(service: &LanguageService, uri: InternUri, position: Position) -> Option<SyntaxToken> {
    let offset = helpers::lsp_pos_to_rowan_pos(&service.line_index(uri), position)?;
    match SyntaxNode::new_root(service.root(uri)).token_at_offset(offset) {
        TokenAtOffset::Single(token) => Some(token),
        TokenAtOffset::Between(left, _) => Some(left),
        TokenAtOffset::None => None,
    }
}

fn is_l_paren(token: &SyntaxToken) -> bool {
    let kind = token.kind();
    if kind == SyntaxKind::L_PAREN {
        true
    } else {
        kind == SyntaxKind::ERROR && token.text() == "("
    }
}

/// the parenthesis that the token is or directly follows
fn find_leading_l_paren(token: &SyntaxToken) -> Option<SyntaxToken> {
    if is_l_paren(token) {
        return Some(token);
    }
    let before = token
        .siblings_with_tokens(Direction::Prev)
        .skip(1)
        .skip_while(|it| it.kind() == SyntaxKind::WHITESPACE || it.kind() == SyntaxKind::LINE_COMMENT || it.kind() == SyntaxKind::BLOCK_COMMENT)
        .filter_map(SyntaxElement::into_token)
        .next()?;
    if is_l_paren(&before) {
        Some(before)
    } else {
        None
    }
}

fn spec_is_body(kind: SyntaxKind) -> bool {
    kind == SyntaxKind::PLAIN_INSTR || kind == SyntaxKind::BLOCK_BLOCK || kind == SyntaxKind::BLOCK_IF || kind == SyntaxKind::BLOCK_LOOP
}

/// the kind of the next node beside a token or node, in one direction
fn spec_beside(from: SyntaxToken, direction: Direction) -> Option<SyntaxKind> {
    match from.siblings_with_tokens(direction).skip(1).find(|it| matches!(it, SyntaxElement::Node(..))) {
        Some(it) => Some(it.kind()),
        None => None,
    }
}

fn spec_has_child(node: &SyntaxNode, kind: SyntaxKind) -> bool {
    node.children().any(|it| it.kind() == kind)
}

fn spec_header_keywords() -> Vec<CmpCtx> {
    vec![CmpCtx::KeywordImExport, CmpCtx::KeywordType, CmpCtx::KeywordParamResult, CmpCtx::KeywordLocal]
}

/// what an operand of an instruction names
fn add_cmp_ctx_for_operands(instr_name: &str, node: &SyntaxNode, ctx: &mut SmallVec<[CmpCtx; 4]>) {
    match instr_name.split_once('.') {
        Some((fst, snd)) => {
            if fst == "local" {
                ctx.push(CmpCtx::Local);
            } else if fst == "global" {
                ctx.push(CmpCtx::Global);
            } else if fst == "ref" && snd == "func" {
                ctx.push(CmpCtx::Func);
            } else if fst == "table" {
                let segment = snd == "init"
                    && node.kind() == SyntaxKind::OPERAND
                    && node.prev_sibling().is_some_and(|it| it.kind() == SyntaxKind::OPERAND);
                if !segment {
                    ctx.push(CmpCtx::Table);
                }
            } else if snd.starts_with("load") || snd.starts_with("store") {
                ctx.push(CmpCtx::MemArg);
            }
        }
        None => {
            if instr_name == "call" || instr_name == "return_call" {
                ctx.push(CmpCtx::Func);
            } else if instr_name == "br" || instr_name == "br_if" || instr_name == "br_table" {
                ctx.push(CmpCtx::Block);
            }
        }
    }
}

/// what may be written at the token
fn get_cmp_ctx(token: &SyntaxToken) -> Option<SmallVec<[CmpCtx; 4]>> {
    let parent = token.parent()?;
    let kind = parent.kind();
    let paren = find_leading_l_paren(token).is_some();
    let mut ctx = vec![];
    if kind == SyntaxKind::MODULE_FIELD_FUNC {
        let started = match spec_beside(token, Direction::Prev) {
            Some(it) => spec_is_body(it),
            None => false,
        };
        let header_follows = match spec_beside(token, Direction::Next) {
            Some(it) => !spec_is_body(it),
            None => false,
        };
        if !started && paren {
            ctx.extend(spec_header_keywords());
        }
        if !header_follows {
            ctx.push(CmpCtx::Instr);
        }
    } else if kind == SyntaxKind::MODULE_FIELD_TYPE {
        if paren {
            ctx.push(CmpCtx::KeywordFunc);
        }
    } else if kind == SyntaxKind::PLAIN_INSTR {
        if token.kind() == SyntaxKind::INSTR_NAME {
            ctx.push(CmpCtx::Instr);
            if let Some(grand) = parent.parent() {
                if grand.kind() == SyntaxKind::MODULE_FIELD_FUNC {
                    let started = match spec_beside(parent, Direction::Prev) {
                        Some(it) => spec_is_body(it),
                        None => false,
                    };
                    if !started && paren {
                        ctx.extend(spec_header_keywords());
                    }
                } else if grand.kind() == SyntaxKind::OFFSET && support::token(&grand, SyntaxKind::KEYWORD).is_none() {
                    ctx.push(CmpCtx::KeywordOffset);
                    if let Some(field) = grand.parent() {
                        if field.kind() == SyntaxKind::MODULE_FIELD_DATA {
                            ctx.push(CmpCtx::KeywordMemory);
                        }
                        if field.kind() == SyntaxKind::MODULE_FIELD_ELEM && !grand.siblings(Direction::Prev).any(|it| it.kind() == SyntaxKind::TABLE_USE) {
                            ctx.push(CmpCtx::KeywordTable);
                        }
                    }
                }
            }
        } else {
            add_cmp_ctx_for_operands(support::token(&parent, SyntaxKind::INSTR_NAME)?.text(), &parent, &mut ctx);
        }
    } else if kind == SyntaxKind::OPERAND {
        let instr = parent.ancestors().find(|it| it.kind() == SyntaxKind::PLAIN_INSTR)?;
        add_cmp_ctx_for_operands(support::token(&instr, SyntaxKind::INSTR_NAME)?.text(), &parent, &mut ctx);
    } else if kind == SyntaxKind::PARAM || kind == SyntaxKind::RESULT || kind == SyntaxKind::LOCAL || kind == SyntaxKind::GLOBAL_TYPE {
        if !token.text().starts_with('$') {
            ctx.push(CmpCtx::ValType);
        }
    } else if kind == SyntaxKind::TYPE_USE {
        ctx.push(CmpCtx::FuncType);
    } else if kind == SyntaxKind::FUNC_TYPE {
        if paren {
            ctx.push(CmpCtx::KeywordParamResult);
        }
    } else if kind == SyntaxKind::INDEX {
        let user = parent.parent()?.kind();
        if user == SyntaxKind::MODULE_FIELD_START || user == SyntaxKind::EXPORT_DESC_FUNC {
            ctx.push(CmpCtx::Func);
        } else if user == SyntaxKind::TYPE_USE {
            ctx.push(CmpCtx::FuncType);
        } else if user == SyntaxKind::EXPORT_DESC_GLOBAL {
            ctx.push(CmpCtx::Global);
        } else if user == SyntaxKind::EXPORT_DESC_MEMORY || user == SyntaxKind::MEM_USE {
            ctx.push(CmpCtx::Memory);
        } else if user == SyntaxKind::EXPORT_DESC_TABLE || user == SyntaxKind::TABLE_USE {
            ctx.push(CmpCtx::Table);
        }
    } else if kind == SyntaxKind::MODULE_FIELD_GLOBAL {
        if spec_has_child(&parent, SyntaxKind::GLOBAL_TYPE) {
            ctx.push(CmpCtx::Instr);
        } else if paren {
            ctx.push(CmpCtx::KeywordMut);
            ctx.push(CmpCtx::KeywordImExport);
        } else {
            ctx.push(CmpCtx::ValType);
        }
    } else if kind == SyntaxKind::MODULE_FIELD_EXPORT || kind == SyntaxKind::MODULE_FIELD_IMPORT {
        if paren {
            ctx.push(CmpCtx::KeywordPortDesc);
        }
    } else if kind == SyntaxKind::MODULE_FIELD_TABLE {
        if paren {
            ctx.push(CmpCtx::KeywordImExport);
            ctx.push(CmpCtx::KeywordElem);
        } else {
            ctx.push(CmpCtx::RefType);
        }
    } else if kind == SyntaxKind::MODULE_FIELD_START || kind == SyntaxKind::EXPORT_DESC_FUNC {
        ctx.push(CmpCtx::Func);
    } else if kind == SyntaxKind::EXPORT_DESC_GLOBAL {
        ctx.push(CmpCtx::Global);
    } else if kind == SyntaxKind::MODULE_FIELD_MEMORY {
        if paren {
            ctx.push(CmpCtx::KeywordImExport);
            ctx.push(CmpCtx::KeywordData);
        }
    } else if kind == SyntaxKind::MODULE_FIELD_DATA {
        if paren {
            ctx.push(CmpCtx::KeywordMemory);
            ctx.push(CmpCtx::KeywordOffset);
            ctx.push(CmpCtx::Instr);
        }
    } else if kind == SyntaxKind::MODULE_FIELD_ELEM {
        if paren {
            if spec_has_child(&parent, SyntaxKind::OFFSET) {
                ctx.push(CmpCtx::KeywordItem);
            } else {
                if !spec_has_child(&parent, SyntaxKind::TABLE_USE) {
                    ctx.push(CmpCtx::KeywordTable);
                }
                ctx.push(CmpCtx::KeywordOffset);
            }
            ctx.push(CmpCtx::Instr);
        } else {
            let of_funcs = match parent.children().find(|it| it.kind() == SyntaxKind::ELEM_LIST) {
                Some(list) => match support::token(&list, SyntaxKind::KEYWORD) {
                    Some(keyword) => keyword.text() == "func",
                    None => false,
                },
                None => false,
            };
            if of_funcs {
                ctx.push(CmpCtx::Func);
            } else {
                ctx.push(CmpCtx::RefType);
                ctx.push(CmpCtx::KeywordFunc);
                let declared = parent.children_with_tokens().any(|it| {
                    if let SyntaxElement::Token(token) = it {
                        token.text() == "declare"
                    } else {
                        false
                    }
                });
                if !declared {
                    ctx.push(CmpCtx::KeywordDeclare);
                }
            }
        }
    } else if kind == SyntaxKind::EXPORT_DESC_MEMORY || kind == SyntaxKind::MEM_USE {
        ctx.push(CmpCtx::Memory);
    } else if kind == SyntaxKind::EXPORT_DESC_TABLE || kind == SyntaxKind::TABLE_USE {
        ctx.push(CmpCtx::Table);
    } else if kind == SyntaxKind::TABLE_TYPE || kind == SyntaxKind::IMPORT_DESC_TABLE_TYPE {
        ctx.push(CmpCtx::RefType);
    } else if kind == SyntaxKind::IMPORT_DESC_TYPE_USE {
        if paren {
            ctx.push(CmpCtx::KeywordParamResult);
            ctx.push(CmpCtx::KeywordType);
        }
    } else if kind == SyntaxKind::IMPORT_DESC_GLOBAL_TYPE {
        if paren {
            ctx.push(CmpCtx::KeywordMut);
        } else {
            ctx.push(CmpCtx::ValType);
        }
    } else if kind == SyntaxKind::ELEM {
        if paren {
            ctx.push(CmpCtx::Instr);
            ctx.push(CmpCtx::KeywordItem);
        } else {
            ctx.push(CmpCtx::Func);
        }
    } else if kind == SyntaxKind::ELEM_EXPR || kind == SyntaxKind::OFFSET {
        ctx.push(CmpCtx::Instr);
    } else if kind == SyntaxKind::ELEM_LIST {
        if paren {
            ctx.push(CmpCtx::KeywordItem);
            ctx.push(CmpCtx::Instr);
        }
    } else if kind == SyntaxKind::MODULE {
        if paren {
            ctx.push(CmpCtx::KeywordModuleField);
        }
    } else if kind == SyntaxKind::ROOT {
        if paren {
            ctx.push(CmpCtx::KeywordModule);
        }
    }
    if ctx.is_empty() {
        None
    } else {
        Some(ctx)
    }
}

/// the label and the inserted text: the name (without `$` after a typed `$`), otherwise the number
fn get_idx_cmp_text(service: &LanguageService, idx: &Idx, has_dollar: bool) -> Option<(String, Option<String>)> {
    if has_dollar {
        match idx.name {
            Some(name) => {
                let name = service.lookup_ident(name);
                match name.strip_prefix('$') {
                    Some(bare) => Some((name, Some(bare))),
                    None => None,
                }
            }
            None => None,
        }
    } else {
        let label = match idx.name {
            Some(name) => service.lookup_ident(name),
            None => match idx.num {
                Some(num) => num.to_string(),
                None => Default::default(),
            },
        };
        Some((label, None))
    }
}

fn spec_around(token: &SyntaxToken, kind: SyntaxKind) -> Option<SyntaxNode> {
    token.parent_ancestors().find(|it| it.kind() == kind)
}

fn spec_completion(label: String, insert_text: Option<String>, kind: CompletionItemKind) -> CompletionItem {
    CompletionItem { label: label, insert_text: insert_text, kind: Some(kind), ..Default::default() }
}

fn spec_keyword(label: String) -> CompletionItem {
    spec_completion(label, None, CompletionItemKind::KEYWORD)
}

fn spec_markdown(value: String) -> Documentation {
    Documentation::MarkupContent(MarkupContent { kind: MarkupKind::Markdown, value: value })
}

fn spec_type_item(ty: String) -> CompletionItem {
    CompletionItem {
        label: ty.to_string(),
        kind: Some(CompletionItemKind::CLASS),
        documentation: match data_set::get_value_type_description(ty) {
            Some(desc) => Some(spec_markdown(desc.into())),
            None => None,
        },
        ..Default::default()
    }
}

fn spec_details(ty: Option<ValType>) -> Option<CompletionItemLabelDetails> {
    match ty {
        Some(ty) => Some(CompletionItemLabelDetails { description: Some(ty.to_string()), ..Default::default() }),
        None => None,
    }
}

/// one item for every declaration in scope
fn get_cmp_list(service: &LanguageService, ctx: SmallVec<[CmpCtx; 4]>, token: &SyntaxToken, uri: InternUri, symbol_table: &SymbolTable) -> Vec<CompletionItem> {
    let has_dollar = token.text().starts_with('$');
    let mut items = vec![];
    for it in ctx {
        match it {
            CmpCtx::Instr => {
                for name in data_set::INSTR_NAMES.iter() {
                    items.push(spec_completion(name.to_string(), None, CompletionItemKind::OPERATOR));
                }
            }
            CmpCtx::ValType => {
                for ty in data_set::VALUE_TYPES.iter() {
                    items.push(spec_type_item(ty));
                }
            }
            CmpCtx::RefType => {
                items.push(spec_type_item("funcref"));
                items.push(spec_type_item("externref"));
            }
            CmpCtx::Local => {
                if let Some(func) = spec_around(token, SyntaxKind::MODULE_FIELD_FUNC) {
                    for symbol in symbol_table.get_declared_params_and_locals(func) {
                        if let Some((label, insert)) = get_idx_cmp_text(service, &symbol.idx, has_dollar) {
                            items.push(CompletionItem {
                                label: label,
                                insert_text: insert,
                                kind: Some(CompletionItemKind::VARIABLE),
                                label_details: spec_details(service.extract_type(symbol.green)),
                                ..Default::default()
                            });
                        }
                    }
                }
            }
            CmpCtx::Func => {
                if let Some(module) = spec_around(token, SyntaxKind::MODULE) {
                    for symbol in symbol_table.get_declared_fields(module, SymbolItemKind::Func) {
                        if let Some((label, insert)) = get_idx_cmp_text(service, &symbol.idx, has_dollar) {
                            items.push(CompletionItem {
                                label: label,
                                insert_text: insert,
                                kind: Some(CompletionItemKind::FUNCTION),
                                documentation: Some(spec_markdown(format!("```wat\n{}\n```", service.render_func_header(uri, symbol.into())))),
                                ..Default::default()
                            });
                        }
                    }
                }
            }
            CmpCtx::FuncType => {
                if let Some(module) = spec_around(token, SyntaxKind::MODULE) {
                    for symbol in symbol_table.get_declared_fields(module, SymbolItemKind::Type) {
                        if let Some((label, insert)) = get_idx_cmp_text(service, &symbol.idx, has_dollar) {
                            items.push(spec_completion(label, insert, CompletionItemKind::INTERFACE));
                        }
                    }
                }
            }
            CmpCtx::Global => {
                if let Some(module) = spec_around(token, SyntaxKind::MODULE) {
                    for symbol in symbol_table.get_declared_fields(module, SymbolItemKind::GlobalDef) {
                        if let Some((label, insert)) = get_idx_cmp_text(service, &symbol.idx, has_dollar) {
                            items.push(CompletionItem {
                                label: label,
                                insert_text: insert,
                                kind: Some(CompletionItemKind::VARIABLE),
                                label_details: spec_details(service.extract_global_type(symbol.green)),
                                ..Default::default()
                            });
                        }
                    }
                }
            }
            CmpCtx::MemArg => {
                items.push(spec_completion("offset=".to_string(), None, CompletionItemKind::SNIPPET));
                items.push(spec_completion("align=".to_string(), None, CompletionItemKind::SNIPPET));
            }
            CmpCtx::Memory => {
                if let Some(module) = spec_around(token, SyntaxKind::MODULE) {
                    for symbol in symbol_table.get_declared_fields(module, SymbolItemKind::MemoryDef) {
                        if let Some((label, insert)) = get_idx_cmp_text(service, &symbol.idx, has_dollar) {
                            items.push(spec_completion(label, insert, CompletionItemKind::VARIABLE));
                        }
                    }
                }
            }
            CmpCtx::Table => {
                if let Some(module) = spec_around(token, SyntaxKind::MODULE) {
                    let scope = module.into();
                    for symbol in symbol_table.symbols.iter() {
                        if symbol.kind == SymbolItemKind::TableDef && symbol.region == scope {
                            if let Some((label, insert)) = get_idx_cmp_text(service, &symbol.idx, has_dollar) {
                                items.push(spec_completion(label, insert, CompletionItemKind::VARIABLE));
                            }
                        }
                    }
                }
            }
            CmpCtx::Block => {
                let scopes: Vec<SymbolItemKey> = token.parent_ancestors().filter_map(label_scope).map(|it| it.into()).collect();
                let visible: Vec<&SymbolItem> = symbol_table.symbols.iter().filter(|it| it.kind == SymbolItemKind::BlockDef && scopes.contains(&it.key)).collect();
                for (level, symbol) in visible.iter().rev().enumerate() {
                    let idx = Idx { num: Some(level), name: symbol.idx.name };
                    if let Some((label, insert)) = get_idx_cmp_text(service, &idx, has_dollar) {
                        items.push(spec_completion(label, insert, CompletionItemKind::VARIABLE));
                    }
                }
            }
            CmpCtx::KeywordModule => items.push(spec_keyword("module".to_string())),
            CmpCtx::KeywordModuleField => {
                for it in data_set::MODULE_FIELDS.iter() {
                    items.push(spec_keyword(it.to_string()));
                }
            }
            CmpCtx::KeywordImExport => {
                items.push(spec_keyword("import".to_string()));
                items.push(spec_keyword("export".to_string()));
            }
            CmpCtx::KeywordType => items.push(spec_keyword("type".to_string())),
            CmpCtx::KeywordParamResult => {
                items.push(spec_keyword("param".to_string()));
                items.push(spec_keyword("result".to_string()));
            }
            CmpCtx::KeywordLocal => items.push(spec_keyword("local".to_string())),
            CmpCtx::KeywordMut => items.push(spec_keyword("mut".to_string())),
            CmpCtx::KeywordPortDesc => {
                for it in data_set::PORT_DESC.iter() {
                    items.push(spec_keyword(it.to_string()));
                }
            }
            CmpCtx::KeywordData => items.push(spec_keyword("data".to_string())),
            CmpCtx::KeywordFunc => items.push(spec_keyword("func".to_string())),
            CmpCtx::KeywordElem => items.push(spec_keyword("elem".to_string())),
            CmpCtx::KeywordItem => items.push(spec_keyword("item".to_string())),
            CmpCtx::KeywordMemory => items.push(spec_keyword("memory".to_string())),
            CmpCtx::KeywordOffset => items.push(spec_keyword("offset".to_string())),
            CmpCtx::KeywordDeclare => items.push(spec_keyword("declare".to_string())),
            CmpCtx::KeywordTable => items.push(spec_keyword("table".to_string())),
        }
    }
    items
}

impl LanguageService {
    /// what may be written at the position
    fn completion(&self, params: CompletionParams) -> Option<CompletionResponse> {
        let uri = self.uri(params.text_document_position.text_document.uri);
        let token = find_token(self, uri, params.text_document_position.position)?;
        match get_cmp_ctx(&token) {
            Some(ctx) => Some(CompletionResponse::Array(get_cmp_list(self, ctx, &token, uri, &self.symbol_table(uri)))),
            None => None,
        }
    }
}
