//! Contracts of crates/service/src/features/hover.rs.
impl LanguageService {
    /// On an identifier or number: the local or parameter it resolves to, otherwise the declarations a use resolves to,
    /// otherwise the declaration itself. On a keyword the declaration, on a type or an instruction its description.
    fn hover(&self, params: HoverParams) -> Option<Hover> {
        let uri = self.uri(params.text_document_position_params.text_document.uri);
        let root = SyntaxNode::new_root(self.root(uri));
        let token = find_meaningful_token(self, uri, &root, params.text_document_position_params.position)?;
        let line_index = self.line_index(uri);
        let kind = token.kind();
        let contents = if kind == SyntaxKind::IDENT || kind == SyntaxKind::INT || kind == SyntaxKind::UNSIGNED_INT {
            spec_name_hover(self, uri, root, token.parent()?)?
        } else if kind == SyntaxKind::NUM_TYPE || kind == SyntaxKind::VEC_TYPE || kind == SyntaxKind::REF_TYPE {
            let text = token.text();
            let doc = data_set::get_value_type_description(text)?;
            HoverContents::Markup(MarkupContent { kind: MarkupKind::Markdown, value: format!("```wat\n{}\n```\n\n{}", text, doc) })
        } else if kind == SyntaxKind::KEYWORD {
            spec_own_hover(self, uri, root, token.parent()?)?
        } else if kind == SyntaxKind::INSTR_NAME {
            let text = token.text();
            let meta = data_set::INSTR_METAS.get(text)?;
            HoverContents::Markup(MarkupContent { kind: MarkupKind::Markdown, value: format!("```wat\n{}\n```\nBinary Opcode: {}", text, meta.bin_op) })
        } else {
            return None;
        };
        Some(Hover { contents: contents, range: Some(helpers::rowan_range_to_lsp_range(&line_index, token.text_range())) })
    }
}

fn spec_symbol_of(service: &LanguageService, uri: InternUri, node: SyntaxNode) -> Option<SymbolItem> {
    let key = node.into();
    service.symbol_table(uri).symbols.iter().find(|it| it.key == key)
}

/// what the symbol of the node itself is
fn spec_own_hover(service: &LanguageService, uri: InternUri, root: SyntaxNode, node: SyntaxNode) -> Option<HoverContents> {
    let symbol = spec_symbol_of(service, uri, node)?;
    create_def_hover(service, uri, &root, symbol)
}

fn spec_name_hover(service: &LanguageService, uri: InternUri, root: SyntaxNode, node: SyntaxNode) -> Option<HoverContents> {
    let table = service.symbol_table(uri);
    let key = node.into();
    if let Some(def) = table.find_param_or_local_def(&key) {
        return Some(HoverContents::Scalar(create_param_or_local_hover(service, def)));
    }
    let symbol = spec_symbol_of(service, uri, node)?;
    if symbol.kind == SymbolItemKind::Call || symbol.kind == SymbolItemKind::TypeUse || symbol.kind == SymbolItemKind::GlobalRef {
        if let Some(defs) = table.find_defs(&key) {
            if symbol.kind == SymbolItemKind::Call {
                let mut value = String::new();
                for def in defs {
                    if !value.is_empty() {
                        value.push_str("\n---\n");
                    }
                    value.push_str(&create_func_hover(service, uri, def, &root));
                }
                return Some(HoverContents::Markup(MarkupContent { kind: MarkupKind::Markdown, value: value }));
            }
            if symbol.kind == SymbolItemKind::TypeUse {
                return Some(HoverContents::Array(defs.map(|def| create_type_def_hover(service, def)).collect()));
            }
            return Some(HoverContents::Array(defs.map(|def| create_global_def_hover(service, def, &root)).collect()));
        }
    }
    create_def_hover(service, uri, &root, symbol)
}

fn create_def_hover(service: &LanguageService, uri: InternUri, root: &SyntaxNode, symbol: &SymbolItem) -> Option<HoverContents> {
    if symbol.kind == SymbolItemKind::Param || symbol.kind == SymbolItemKind::Local {
        Some(HoverContents::Scalar(create_param_or_local_hover(service, symbol)))
    } else if symbol.kind == SymbolItemKind::Func {
        Some(HoverContents::Markup(MarkupContent { kind: MarkupKind::Markdown, value: create_func_hover(service, uri, symbol, root) }))
    } else if symbol.kind == SymbolItemKind::Type {
        Some(HoverContents::Scalar(create_type_def_hover(service, symbol)))
    } else if symbol.kind == SymbolItemKind::GlobalDef {
        Some(HoverContents::Scalar(create_global_def_hover(service, symbol, root)))
    } else {
        None
    }
}

/// the header of the function, then the documentation comments in front of it, the last one last
fn create_func_hover(service: &LanguageService, uri: InternUri, symbol: SymbolItem, root: &SyntaxNode) -> String {
    let node = symbol.key.ptr.to_node(root);
    let header = format!("```wat\n{}\n```", service.render_func_header(uri, symbol.into()));
    let comments = node
        .siblings_with_tokens(Direction::Prev)
        .skip(1)
        .take_while(|it| it.kind() == SyntaxKind::LINE_COMMENT || it.kind() == SyntaxKind::WHITESPACE)
        .filter_map(|it| match it {
            SyntaxElement::Token(token) => if token.kind() == SyntaxKind::LINE_COMMENT { Some(token) } else { None },
            _ => None,
        })
        .skip_while(|it| !it.text().starts_with(";;;"))
        .take_while(|it| it.text().starts_with(";;;"));
    let mut doc = String::new();
    for comment in comments {
        if !doc.is_empty() {
            doc = format!("\n{doc}");
        }
        if let Some(text) = comment.text().strip_prefix(";;;") {
            let line = match text.strip_prefix([' ', '\t']) {
                Some(rest) => rest,
                None => text,
            };
            doc = format!("{line}{doc}");
        }
    }
    if doc.is_empty() {
        header
    } else {
        format!("{header}\n---\n{doc}")
    }
}

fn spec_spaced_name(service: &LanguageService, symbol: &SymbolItem) -> String {
    match symbol.idx.name {
        Some(name) => format!(" {}", service.lookup_ident(name)),
        None => String::new(),
    }
}

/// `(param $name type)` or `(local $name type)`
fn create_param_or_local_hover(service: &LanguageService, symbol: &SymbolItem) -> MarkedString {
    let head = if symbol.kind == SymbolItemKind::Param {
        format!("param{}", spec_spaced_name(service, symbol))
    } else if symbol.kind == SymbolItemKind::Local {
        format!("local{}", spec_spaced_name(service, symbol))
    } else {
        String::new()
    };
    let ty = match service.extract_type(symbol.green) {
        Some(ty) => format!(" {ty}"),
        None => String::new(),
    };
    create_marked_string(format!("({head}{ty})"))
}

/// `(global $name type)` or `(global $name (mut type))`
fn create_global_def_hover(service: &LanguageService, symbol: &SymbolItem, root: &SyntaxNode) -> MarkedString {
    let head = if symbol.kind == SymbolItemKind::GlobalDef {
        format!("global{}", spec_spaced_name(service, symbol))
    } else {
        String::new()
    };
    let ty = match child::<GlobalType>(&symbol.key.ptr.to_node(root)) {
        Some(global_type) => {
            let ty = match global_type.val_type() {
                Some(ty) => format!(" {}", ty.syntax()),
                None => String::new(),
            };
            if global_type.mut_keyword().is_some() { format!(" (mut{ty})") } else { ty }
        }
        None => String::new(),
    };
    create_marked_string(format!("({head}{ty})"))
}

/// `(type $name (func signature))`
fn create_type_def_hover(service: &LanguageService, symbol: &SymbolItem) -> MarkedString {
    let name = if symbol.kind == SymbolItemKind::Type { spec_spaced_name(service, symbol) } else { String::new() };
    let func = match helpers::ast::find_func_type_of_type_def(&symbol.green) {
        Some(func_type) => {
            let sig = service.extract_sig(func_type);
            if sig.params.is_empty() && sig.results.is_empty() { " (func)" } else { format!(" (func {sig})") }
        }
        None => "",
    };
    create_marked_string(format!("(type{name}{func})"))
}

fn create_marked_string(value: String) -> MarkedString {
    MarkedString::LanguageString(LanguageString { language: "wat", value: value })
}
