//! Contracts of crates/service/src/features/semantic_tokens.rs.
impl LanguageService {
    /// the tokens of the whole document, the first one relative to its start
    fn semantic_tokens_full(&self, params: SemanticTokensParams) -> Option<SemanticTokensResult> {
        let uri = self.uri(params.text_document.uri);
        let mut line = 0;
        let mut col = 0;
        let data = self.build_tokens(uri, spec_tokens(SyntaxNode::new_root(self.root(uri))), &mut line, &mut col);
        Some(SemanticTokensResult::Tokens(SemanticTokens { result_id: None, data: data }))
    }

    /// the tokens that touch the range. The first one is relative to itself: a known finding
    fn semantic_tokens_range(&self, params: SemanticTokensRangeParams) -> Option<SemanticTokensRangeResult> {
        let uri = self.uri(params.text_document.uri);
        let line_index = self.line_index(uri);
        let start = helpers::lsp_pos_to_rowan_pos(&line_index, params.range.start)?;
        let end = helpers::lsp_pos_to_rowan_pos(&line_index, params.range.end)?;
        let tokens = spec_tokens(SyntaxNode::new_root(self.root(uri)))
            .skip_while(|it| it.text_range().end() <= start)
            .take_while(|it| it.text_range().start() < end);
        let mut line = 0;
        let mut col = 0;
        if let Some(first) = tokens.first() {
            let position = helpers::rowan_pos_to_lsp_pos(&line_index, first.text_range().start());
            line = position.line;
            col = position.character;
        }
        let data = self.build_tokens(uri, tokens, &mut line, &mut col);
        Some(SemanticTokensRangeResult::Tokens(SemanticTokens { result_id: None, data: data }))
    }

    /// one entry for each token that has a type, relative to the entry before: `delta_line` lines have been ended since,
    /// and on its line it starts `delta_start` behind the last one (behind the line's start, if there is none)
    fn build_tokens(&self, uri: InternUri, tokens: impl Iterator<Item = SyntaxToken>, delta_line: &mut u32, prev_start: &mut u32) -> Vec<SemanticToken> {
        let line_index = self.line_index(uri);
        let mut data = vec![];
        for token in tokens {
            let newlines = token.text().chars().filter(|c| c == '\n').count() as u32;
            if let Some(token_type) = self.token_type(uri, &token) {
                let col = helpers::rowan_pos_to_lsp_pos(&line_index, token.text_range().start()).character;
                data.push(SemanticToken {
                    delta_line: *delta_line,
                    delta_start: col - *prev_start,
                    length: token.text().encode_utf16().count() as u32,
                    token_type: token_type,
                    token_modifiers_bitset: 0,
                });
                *delta_line = newlines;
                *prev_start = if newlines > 0 { 0 } else { col };
            } else if newlines > 0 {
                *delta_line += newlines;
                *prev_start = 0;
            }
        }
        data
    }

    /// the place of the token's type in the legend that was agreed on
    fn token_type(&self, uri: InternUri, token: &SyntaxToken) -> Option<u32> {
        let kind = spec_kind_of(&self.symbol_table(uri), token)?;
        self.semantic_token_kinds.get_index_of(&kind).map(|it| it as u32)
    }
}

fn spec_tokens(root: SyntaxNode) -> impl Iterator<Item = SyntaxToken> {
    root.descendants_with_tokens().filter_map(|it| it.into_token())
}

/// an operand of a call, of `start` or of a function export
fn spec_names_func(operand: SyntaxNode) -> bool {
    match operand.parent() {
        Some(owner) => super::is_call(&owner) || owner.kind() == SyntaxKind::MODULE_FIELD_START || owner.kind() == SyntaxKind::EXPORT_DESC_FUNC,
        None => false,
    }
}

fn spec_kind_of(table: &SymbolTable, token: &SyntaxToken) -> Option<SemanticTokenKind> {
    let kind = token.kind();
    let direct = token.parent();
    if kind == SyntaxKind::NUM_TYPE || kind == SyntaxKind::VEC_TYPE || kind == SyntaxKind::REF_TYPE {
        return Some(SemanticTokenKind::Type);
    }
    if kind == SyntaxKind::KEYWORD {
        return Some(SemanticTokenKind::Keyword);
    }
    if kind == SyntaxKind::INT || kind == SyntaxKind::UNSIGNED_INT {
        if let Some(operand) = direct {
            if spec_names_func(operand) {
                return Some(SemanticTokenKind::Func);
            }
            if let Some(owner) = operand.parent() {
                let local = match support::token(&owner, SyntaxKind::INSTR_NAME) {
                    Some(name) => name.text().starts_with("local."),
                    None => false,
                };
                if local {
                    return if table.find_param_def(&operand.into()).is_some() { Some(SemanticTokenKind::Param) } else { Some(SemanticTokenKind::Var) };
                }
            }
        }
        return Some(SemanticTokenKind::Number);
    }
    if kind == SyntaxKind::FLOAT {
        return Some(SemanticTokenKind::Number);
    }
    if kind == SyntaxKind::IDENT {
        if let Some(node) = direct {
            if spec_names_func(node) || node.kind() == SyntaxKind::MODULE_FIELD_FUNC {
                return Some(SemanticTokenKind::Func);
            }
            if node.kind() == SyntaxKind::PARAM || table.find_param_def(&node.into()).is_some() {
                return Some(SemanticTokenKind::Param);
            }
        }
        return Some(SemanticTokenKind::Var);
    }
    if kind == SyntaxKind::STRING {
        return Some(SemanticTokenKind::String);
    }
    if kind == SyntaxKind::LINE_COMMENT || kind == SyntaxKind::BLOCK_COMMENT {
        return Some(SemanticTokenKind::Comment);
    }
    if kind == SyntaxKind::INSTR_NAME {
        return Some(SemanticTokenKind::Op);
    }
    None
}
