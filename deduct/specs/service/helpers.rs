//! Contracts of crates/service/src/helpers.rs.

/// columns are UTF-16 code units
fn rowan_pos_to_lsp_pos(line_index: &LineIndex, pos: TextSize) -> Position {
    let at = line_index.line_col(pos);
    match line_index.to_wide(WideEncoding::Utf16, at) {
        Some(wide) => Position::new(at.line, wide.col),
        None => Position::new(at.line, at.col),
    }
}

fn rowan_range_to_lsp_range(line_index: &LineIndex, range: TextRange) -> Range {
    Range::new(rowan_pos_to_lsp_pos(line_index, range.start()), rowan_pos_to_lsp_pos(line_index, range.end()))
}

fn lsp_range_to_rowan_range(line_index: &LineIndex, range: Range) -> Option<TextRange> {
    let start = lsp_pos_to_rowan_pos(line_index, range.start)?;
    let end = lsp_pos_to_rowan_pos(line_index, range.end)?;
    if start <= end {
        Some(TextRange::new(start, end))
    } else {
        None
    }
}

/// the first function type below a type definition
fn find_func_type_of_type_def(green: &GreenNode) -> Option<GreenNode> {
    for child in green.children() {
        if let NodeOrToken::Node(node) = child {
            if node.kind() == SyntaxKind::FUNC_TYPE.into() {
                return Some(node);
            }
        }
    }
    None
}

/// the offset in that line, not beyond its end
fn lsp_pos_to_rowan_pos(line_index: &LineIndex, pos: Position) -> Option<TextSize> {
    let line_start = line_index.offset(LineCol { line: pos.line, col: 0 })?;
    let line_end = match line_index.offset(LineCol { line: pos.line + 1, col: 0 }) {
        Some(next_line) => next_line - TextSize::new(1),
        None => line_index.len(),
    };
    let at = line_index.to_utf8(WideEncoding::Utf16, WideLineCol { line: pos.line, col: pos.character.min((line_end - line_start).into()) })?;
    match line_start.checked_add(TextSize::new(at.col)) {
        Some(offset) => Some(offset.min(line_end)),
        None => Some(line_end),
    }
}
