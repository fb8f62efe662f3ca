//! Contracts of crates/service/src/types_analyzer.rs.

/// the first child node of the given kind
fn spec_green_child(node: GreenNode, kind: SyntaxKind) -> Option<GreenNode> {
    for child in node.children() {
        if let NodeOrToken::Node(it) = child {
            if it.kind() == kind.into() {
                return Some(it);
            }
        }
    }
    None
}

fn spec_num_type(text: &str) -> Option<ValType> {
    if text == "i32" {
        Some(ValType::I32)
    } else if text == "i64" {
        Some(ValType::I64)
    } else if text == "f32" {
        Some(ValType::F32)
    } else if text == "f64" {
        Some(ValType::F64)
    } else {
        None
    }
}

fn spec_ref_type(text: &str) -> Option<ValType> {
    if text == "funcref" {
        Some(ValType::FuncRef)
    } else if text == "externref" {
        Some(ValType::ExternRef)
    } else {
        None
    }
}

/// the type a token denotes
fn spec_type_of_token(token: GreenToken) -> Option<ValType> {
    let kind = WatLanguage::kind_from_raw(token.kind());
    if kind == SyntaxKind::NUM_TYPE {
        spec_num_type(token.text())
    } else if kind == SyntaxKind::VEC_TYPE {
        Some(ValType::V128)
    } else if kind == SyntaxKind::REF_TYPE {
        spec_ref_type(token.text())
    } else {
        None
    }
}

/// the type of a node is the one its own type token denotes, otherwise that of its first value type
/// (children that aren't value types, or that are broken, don't count)
fn extract_type(db: &dyn TypesAnalyzerCtx, node: GreenNode) -> Option<ValType> {
    if let Ok(own) = node.try_into() {
        return Some(own);
    }
    for child in node.children() {
        if let NodeOrToken::Node(it) = child {
            if it.kind() == SyntaxKind::VAL_TYPE.into() {
                if let Ok(ty) = it.try_into() {
                    return Some(ty);
                }
            }
        }
    }
    None
}

fn extract_global_type(db: &dyn TypesAnalyzerCtx, node: GreenNode) -> Option<ValType> {
    let global_type = spec_green_child(node, SyntaxKind::GLOBAL_TYPE)?;
    db.extract_type(global_type)
}

/// all parameters and results in order; a name belongs to the first type of its group
fn extract_sig(db: &dyn TypesAnalyzerCtx, node: GreenNode) -> FuncSig {
    let root = SyntaxNode::new_root(node);
    let mut params = vec![];
    for group in children::<Param>(&root) {
        let name = group.ident_token();
        let first = group.val_types().next();
        if name.is_some() && first.is_some() {
            params.push((ValType::from(first.unwrap()), Some(name.unwrap().text())));
        } else {
            for ty in group.val_types() {
                params.push((ValType::from(ty), None));
            }
        }
    }
    let mut results = vec![];
    for group in children::<Result>(&root) {
        for ty in group.val_types() {
            results.push(ValType::from(ty));
        }
    }
    FuncSig { params, results }
}

/// the inline parameters and results if there are any, otherwise those of the type that the type use refers to
fn get_func_sig(db: &dyn TypesAnalyzerCtx, uri: InternUri, symbol: SymbolItemWithGreenEq) -> Option<FuncSig> {
    let type_use = spec_green_child(symbol.green, SyntaxKind::TYPE_USE)?;
    if type_use.children().any(|it| it.kind() == SyntaxKind::PARAM.into() || it.kind() == SyntaxKind::RESULT.into()) {
        return Some(db.extract_sig(type_use));
    }
    let node = symbol.key.ptr.to_node(&SyntaxNode::new_root(db.root(uri)));
    let idx = child::<TypeUse>(&node)?.index()?;
    let defs = db.symbol_table(uri).find_defs(&idx.syntax().into())?;
    let def = defs.next()?;
    let func_type = helpers::ast::find_func_type_of_type_def(&def.green)?;
    Some(db.extract_sig(func_type))
}

/// `(func $name <signature>)`
fn render_func_header(db: &dyn TypesAnalyzerCtx, uri: InternUri, symbol: SymbolItemWithGreenEq) -> String {
    let name = if symbol.0.kind == SymbolItemKind::Func && symbol.0.idx.name.is_some() {
        format!(" {}", db.lookup_ident(symbol.0.idx.name.unwrap()))
    } else {
        String::new()
    };
    let sig = match db.get_func_sig(uri, symbol) {
        Some(sig) => if sig.params.is_empty() && sig.results.is_empty() { String::new() } else { format!(" {sig}") },
        None => String::new(),
    };
    format!("(func{name}{sig})")
}

impl ValType {
    /// the text format's name of the type
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let text = if self == ValType::I32 {
            "i32"
        } else if self == ValType::I64 {
            "i64"
        } else if self == ValType::F32 {
            "f32"
        } else if self == ValType::F64 {
            "f64"
        } else if self == ValType::V128 {
            "v128"
        } else if self == ValType::FuncRef {
            "funcref"
        } else {
            "externref"
        };
        f.write_str(text)
    }

    fn from(value: AstValType) -> Self {
        match value.num_type() {
            Some(num) => match spec_num_type(num.text()) {
                Some(ty) => ty,
                None => panic!(),
            },
            None => {
                if value.vec_type().is_some() {
                    return ValType::V128;
                }
                match value.ref_type() {
                    Some(it) => match spec_ref_type(it.text()) {
                        Some(ty) => ty,
                        None => panic!(),
                    },
                    None => panic!(),
                }
            }
        }
    }

    /// the type that the first type token denotes
    fn try_from(node: GreenNode) -> std::result::Result<Self, Self::Error> {
        for child in node.children() {
            if let NodeOrToken::Token(token) = child {
                if let Some(ty) = spec_type_of_token(token) {
                    return Ok(ty);
                }
            }
        }
        Err(())
    }
}

impl FuncSig {
    /// every parameter, then every result, each in its own group, separated by spaces
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut written = false;
        for (ty, name) in self.params.iter() {
            if written {
                f.write_str(" ");
            }
            f.write_str(match name {
                Some(name) => format!("(param {name} {ty})"),
                None => format!("(param {ty})"),
            });
            written = true;
        }
        for ty in self.results.iter() {
            if written {
                f.write_str(" ");
            }
            f.write_str(format!("(result {ty})"));
            written = true;
        }
        Ok(())
    }
}
