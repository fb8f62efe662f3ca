//! Contracts of crates/service/src/features/code_action.rs.

fn spec_wanted(only: &Option<Vec<CodeActionKind>>, kind: CodeActionKind) -> bool {
    match only {
        Some(kinds) => kinds.iter().any(|it| it == kind),
        None => true,
    }
}

fn spec_action_at(service: &LanguageService, uri: InternUri, line_index: &LineIndex, node: &SyntaxNode, range: TextRange, quickfix: bool, rewrite: bool) -> Option<CodeAction> {
    let kind = node.kind();
    if kind == SyntaxKind::PLAIN_INSTR && quickfix {
        fix_invalid_mem_arg::act(service, uri, line_index, node)
    } else if (kind == SyntaxKind::PARAM || kind == SyntaxKind::RESULT || kind == SyntaxKind::LOCAL) && rewrite {
        func_header_split::act(service, uri, line_index, node, kind)
    } else if (kind == SyntaxKind::TYPE_USE || kind == SyntaxKind::FUNC_TYPE) && rewrite {
        params_join::act(service, uri, line_index, node, range)
    } else {
        None
    }
}

impl LanguageService {
    /// the actions of the nodes around the selection, from the outermost to the innermost, of the kinds that are asked for
    fn code_action(&self, params: CodeActionParams) -> Option<Vec<CodeActionOrCommand>> {
        let uri = self.uri(params.text_document.uri);
        let line_index = self.line_index(uri);
        let range = helpers::lsp_range_to_rowan_range(&line_index, params.range)?;
        let quickfix = spec_wanted(&params.context.only, CodeActionKind::QUICKFIX);
        let rewrite = spec_wanted(&params.context.only, CodeActionKind::REFACTOR_REWRITE);
        let mut actions = vec![];
        let mut node = SyntaxNode::new_root(self.root(uri));
        while let Some(SyntaxElement::Node(it)) = node.child_or_token_at_range(range) {
            if let Some(action) = spec_action_at(self, uri, &line_index, &it, range, quickfix, rewrite) {
                actions.push(CodeActionOrCommand::CodeAction(action));
            }
            node = it;
        }
        if actions.is_empty() { None } else { Some(actions) }
    }
}
