//! What rowan::ast::support does (definitions for the contracts of this crate, not contracts).
//! Calls without a type argument are completed from the return type (d_syntax.py).

fn token(parent: &SyntaxNode, kind: SyntaxKind) -> Option<SyntaxToken> {
    parent.children_with_tokens().filter_map(|it| it.into_token()).find(|it| it.kind() == kind)
}

fn child_by(parent: &SyntaxNode, cast: F) -> Option<N> {
    parent.children().find_map(cast)
}

fn children_by(parent: &SyntaxNode, cast: F) -> AstChildren<N> {
    parent.children().filter_map(cast)
}
