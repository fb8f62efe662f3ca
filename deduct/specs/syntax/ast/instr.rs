//! Contracts of crates/syntax/src/ast/instr.rs: every accessor returns what it is named after.

impl BlockBlock {
    pub fn l_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::L_PAREN)
    }
    pub fn keyword(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::KEYWORD)
    }
    pub fn ident_token(&self) -> Option<SyntaxToken> {
        self.syntax
            .children_with_tokens()
            .filter_map(|it| it.into_token())
            .take_while(|it| !is_block_end(it))
            .find(|it| it.kind() == SyntaxKind::IDENT)
    }
    pub fn block_type(&self) -> Option<BlockType> {
        child(&self.syntax)
    }
    pub fn instrs(&self) -> AstChildren<Instr> {
        children(&self.syntax)
    }
    pub fn r_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::R_PAREN)
    }
    pub fn end_keyword(&self) -> Option<SyntaxToken> {
        self.syntax
            .children_with_tokens()
            .filter_map(|it| it.into_token())
            .find(|it| it.kind() == SyntaxKind::KEYWORD && it.text() == "end")
    }
    pub fn end_ident_token(&self) -> Option<SyntaxToken> {
        self.syntax
            .children_with_tokens()
            .filter_map(|it| it.into_token())
            .skip_while(|it| !is_block_end(it))
            .find(|it| it.kind() == SyntaxKind::IDENT)
    }
}
impl BlockIf {
    pub fn l_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::L_PAREN)
    }
    pub fn keyword(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::KEYWORD)
    }
    pub fn ident_token(&self) -> Option<SyntaxToken> {
        self.syntax
            .children_with_tokens()
            .filter_map(|it| it.into_token())
            .take_while(|it| !is_block_end(it))
            .find(|it| it.kind() == SyntaxKind::IDENT)
    }
    pub fn block_type(&self) -> Option<BlockType> {
        child(&self.syntax)
    }
    pub fn instrs(&self) -> AstChildren<Instr> {
        children(&self.syntax)
    }
    pub fn then_block(&self) -> Option<BlockIfThen> {
        child(&self.syntax)
    }
    pub fn else_block(&self) -> Option<BlockIfElse> {
        child(&self.syntax)
    }
    pub fn r_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::R_PAREN)
    }
    pub fn end_keyword(&self) -> Option<SyntaxToken> {
        self.syntax
            .children_with_tokens()
            .filter_map(|it| it.into_token())
            .find(|it| it.kind() == SyntaxKind::KEYWORD && it.text() == "end")
    }
    pub fn end_ident_token(&self) -> Option<SyntaxToken> {
        self.syntax
            .children_with_tokens()
            .filter_map(|it| it.into_token())
            .skip_while(|it| !is_block_end(it))
            .find(|it| it.kind() == SyntaxKind::IDENT)
    }
}
impl BlockIfElse {
    pub fn l_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::L_PAREN)
    }
    pub fn keyword(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::KEYWORD)
    }
    pub fn ident_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::IDENT)
    }
    pub fn instrs(&self) -> AstChildren<Instr> {
        children(&self.syntax)
    }
    pub fn r_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::R_PAREN)
    }
}
impl BlockIfThen {
    pub fn l_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::L_PAREN)
    }
    pub fn keyword(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::KEYWORD)
    }
    pub fn ident_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::IDENT)
    }
    pub fn instrs(&self) -> AstChildren<Instr> {
        children(&self.syntax)
    }
    pub fn r_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::R_PAREN)
    }
}
impl BlockLoop {
    pub fn l_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::L_PAREN)
    }
    pub fn keyword(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::KEYWORD)
    }
    pub fn ident_token(&self) -> Option<SyntaxToken> {
        self.syntax
            .children_with_tokens()
            .filter_map(|it| it.into_token())
            .take_while(|it| !is_block_end(it))
            .find(|it| it.kind() == SyntaxKind::IDENT)
    }
    pub fn block_type(&self) -> Option<BlockType> {
        child(&self.syntax)
    }
    pub fn instrs(&self) -> AstChildren<Instr> {
        children(&self.syntax)
    }
    pub fn r_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::R_PAREN)
    }
    pub fn end_keyword(&self) -> Option<SyntaxToken> {
        self.syntax
            .children_with_tokens()
            .filter_map(|it| it.into_token())
            .find(|it| it.kind() == SyntaxKind::KEYWORD && it.text() == "end")
    }
    pub fn end_ident_token(&self) -> Option<SyntaxToken> {
        self.syntax
            .children_with_tokens()
            .filter_map(|it| it.into_token())
            .skip_while(|it| !is_block_end(it))
            .find(|it| it.kind() == SyntaxKind::IDENT)
    }
}
impl BlockType {
    pub fn result(&self) -> Option<Result> {
        child(&self.syntax)
    }
    pub fn type_use(&self) -> Option<TypeUse> {
        child(&self.syntax)
    }
}
impl Operand {
    pub fn float(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::FLOAT)
    }
    pub fn int(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::INT)
    }
    pub fn string(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::STRING)
    }
    pub fn ident(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::IDENT)
    }
    pub fn type_use(&self) -> Option<TypeUse> {
        child(&self.syntax)
    }
    pub fn instr(&self) -> Option<Instr> {
        child(&self.syntax)
    }
    pub fn mem_arg(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::MEM_ARG)
    }
    pub fn heap_type(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::HEAP_TYPE)
    }
}
impl PlainInstr {
    pub fn l_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::L_PAREN)
    }
    pub fn instr_name(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::INSTR_NAME)
    }
    pub fn operands(&self) -> AstChildren<Operand> {
        children(&self.syntax)
    }
    pub fn r_paren_token(&self) -> Option<SyntaxToken> {
        token(&self.syntax, SyntaxKind::R_PAREN)
    }
}
fn is_block_end(token: &SyntaxToken) -> bool {
    match token.kind() {
        SyntaxKind::R_PAREN => true,
        SyntaxKind::KEYWORD => token.text() == "end",
        _ => false,
    }
}
