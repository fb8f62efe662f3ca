//! Functions of the dependencies, as their sources say; definitions, not contracts of /repo.

/// rowan
fn left_biased(it: TokenAtOffset) -> Option<SyntaxToken> {
    match it {
        TokenAtOffset::None => None,
        TokenAtOffset::Single(token) => Some(token),
        TokenAtOffset::Between(left, _) => Some(left),
    }
}

/// rowan
fn right_biased(it: TokenAtOffset) -> Option<SyntaxToken> {
    match it {
        TokenAtOffset::None => None,
        TokenAtOffset::Single(token) => Some(token),
        TokenAtOffset::Between(_, right) => Some(right),
    }
}
