//! Contracts of crates/syntax/src/lib.rs: every accessor returns what it is named after.

pub fn is_trivia(token: &SyntaxToken) -> bool {
    matches!(
        token.kind(),
        SyntaxKind::WHITESPACE | SyntaxKind::LINE_COMMENT | SyntaxKind::BLOCK_COMMENT
    )
}
pub fn is_punc(token: &SyntaxToken) -> bool {
    matches!(token.kind(), SyntaxKind::L_PAREN | SyntaxKind::R_PAREN)
}
