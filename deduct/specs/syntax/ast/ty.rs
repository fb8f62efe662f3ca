//! Contracts of crates/syntax/src/ast/ty.rs: every accessor returns what it is named after.

impl FuncType {
    pub fn l_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::L_PAREN)
    }
    pub fn keyword(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::KEYWORD)
    }
    pub fn params(&self) -> AstChildren<Param> {
        children(&self.syntax)
    }
    pub fn results(&self) -> AstChildren<Result> {
        children(&self.syntax)
    }
    pub fn r_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::R_PAREN)
    }
}
impl GlobalType {
    pub fn l_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::L_PAREN)
    }
    pub fn mut_keyword(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::KEYWORD)
    }
    pub fn val_type(&self) -> Option<ValType> {
        child(&self.syntax)
    }
    pub fn r_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::R_PAREN)
    }
}
impl Limits {
    pub fn min(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::UNSIGNED_INT)
    }
    pub fn max(&self) -> Option<SyntaxToken> {
        self.syntax
            .children_with_tokens()
            .filter_map(|it| match it {
                NodeOrToken::Token(token) if token.kind() == SyntaxKind::UNSIGNED_INT => {
                    Some(token)
                }
                _ => None,
            })
            .nth(1)
    }
    pub fn share(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::SHARE)
    }
}
impl MemoryType {
    pub fn limits(&self) -> Option<Limits> {
        child(&self.syntax)
    }
}
impl Param {
    pub fn l_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::L_PAREN)
    }
    pub fn keyword(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::KEYWORD)
    }
    pub fn ident_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::IDENT)
    }
    pub fn val_types(&self) -> AstChildren<ValType> {
        children(&self.syntax)
    }
    pub fn r_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::R_PAREN)
    }
}
impl Result {
    pub fn l_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::L_PAREN)
    }
    pub fn keyword(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::KEYWORD)
    }
    pub fn val_types(&self) -> AstChildren<ValType> {
        children(&self.syntax)
    }
    pub fn r_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::R_PAREN)
    }
}
impl TableType {
    pub fn limits(&self) -> Option<Limits> {
        child(&self.syntax)
    }
    pub fn ref_type(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::REF_TYPE)
    }
}
impl ValType {
    pub fn num_type(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::NUM_TYPE)
    }
    pub fn vec_type(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::VEC_TYPE)
    }
    pub fn ref_type(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::REF_TYPE)
    }
}
