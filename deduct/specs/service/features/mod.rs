//! Contracts of crates/service/src/features/mod.rs.

fn spec_skipped(token: &SyntaxToken) -> bool {
    is_trivia(token) || is_punc(token)
}

/// the token at the position; between two tokens the one that carries meaning, if exactly one does
fn find_meaningful_token(service: &LanguageService, uri: InternUri, root: &SyntaxNode, position: Position) -> Option<SyntaxToken> {
    let offset = helpers::lsp_pos_to_rowan_pos(&service.line_index(uri), position)?;
    match root.token_at_offset(offset) {
        TokenAtOffset::None => None,
        TokenAtOffset::Single(token) => Some(token),
        TokenAtOffset::Between(left, right) => {
            if spec_skipped(&left) && !spec_skipped(&right) {
                Some(right)
            } else if !spec_skipped(&left) && spec_skipped(&right) {
                Some(left)
            } else {
                None
            }
        }
    }
}

fn is_call(node: &SyntaxNode) -> bool {
    node.children_with_tokens().any(|it| {
        if let SyntaxElement::Token(token) = it {
            token.kind() == SyntaxKind::INSTR_NAME && (token.text() == "call" || token.text() == "return_call" || token.text() == "ref.func")
        } else {
            false
        }
    })
}
