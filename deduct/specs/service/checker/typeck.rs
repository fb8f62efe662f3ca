//! Contracts of crates/service/src/checker/typeck.rs.

fn spec_first_def(symbol_table: &SymbolTable, operand: Operand) -> Option<SymbolItem> {
    match symbol_table.find_defs(&operand.syntax().into()) {
        Some(defs) => defs.next(),
        None => None,
    }
}

/// what an instruction leaves on the stack, if that is known
fn resolve_type(service: &LanguageService, uri: InternUri, symbol_table: &SymbolTable, instr: &Instr) -> Option<Vec<OperandType>> {
    match instr {
        Instr::Block(..) => None,
        Instr::Plain(plain) => {
            let name = plain.instr_name()?.text();
            if name == "call" {
                let func = spec_first_def(symbol_table, plain.operands().next()?)?;
                let sig = service.get_func_sig(uri, func.into())?;
                Some(sig.results.iter().map(|ty| OperandType::Val(ty)).collect())
            } else if name == "local.get" {
                let local = symbol_table.find_param_or_local_def(&plain.operands().next()?.syntax().into())?;
                Some(vec![OperandType::Val(service.extract_type(local.green)?)])
            } else if name == "global.get" {
                let global = spec_first_def(symbol_table, plain.operands().next()?)?;
                Some(vec![OperandType::Val(service.extract_global_type(global.green)?)])
            } else {
                match data_set::INSTR_METAS.get(name) {
                    Some(meta) => Some(meta.results),
                    None => None,
                }
            }
        }
    }
}

/// what an instruction takes from the stack, with where a called function declares it
fn resolve_expected_types(service: &LanguageService, uri: InternUri, symbol_table: &SymbolTable, instr: &PlainInstr, meta: Option<&data_set::InstrMeta>) -> Option<Vec<ExpectedType>> {
    if instr.instr_name()?.text() == "call" {
        let func = spec_first_def(symbol_table, instr.operands().next()?)?;
        let declared = symbol_table
            .get_declared_params_and_locals(func.key.ptr.to_node(&SyntaxNode::new_root(service.root(uri))))
            .filter(|it| it.kind == SymbolItemKind::Param)
            .map(|it| Some((it.key.ptr.text_range(), "parameter originally defined here".into())));
        let sig = service.get_func_sig(uri, func.into())?;
        Some(sig.params.iter().map(|param| OperandType::Val(param.0)).zip(declared.chain(iter::repeat(None))).collect())
    } else {
        match meta {
            Some(meta) => Some(meta.params.iter().map(|ty| (ty, None)).collect()),
            None => None,
        }
    }
}

fn build_incorrect_operands_count_msg(expected: usize, received: usize) -> String {
    if expected == 1 {
        format!("expected {} operand, found {}", expected, received)
    } else {
        format!("expected {} operands, found {}", expected, received)
    }
}

fn spec_error(line_index: &LineIndex, range: TextRange, message: String, related: Option<Vec<DiagnosticRelatedInformation>>) -> Diagnostic {
    Diagnostic {
        range: helpers::rowan_range_to_lsp_range(line_index, range),
        severity: Some(DiagnosticSeverity::ERROR),
        source: Some("wat".into()),
        message: message,
        related_information: related,
        ..Default::default()
    }
}

/// one diagnostic for every pair of value types that differ, at the operand
fn spec_mismatches(service: &LanguageService, uri: InternUri, line_index: &LineIndex, expected: Vec<ExpectedType>, received: Vec<(OperandType, Operand)>) -> Vec<Diagnostic> {
    let mut r = vec![];
    for (want, got) in expected.iter().zip(received.iter()) {
        let (want, related) = want;
        let (got, operand) = got;
        if let OperandType::Val(want) = want {
            if let OperandType::Val(got) = got {
                if want != got {
                    let info = match related {
                        Some((range, message)) => Some(vec![DiagnosticRelatedInformation {
                            location: Location { uri: service.lookup_uri(uri), range: helpers::rowan_range_to_lsp_range(line_index, range) },
                            message: message,
                        }]),
                        None => None,
                    };
                    r.push(spec_error(line_index, operand.syntax().text_range(), format!("expected type `{}`, found `{}`", want, got), info));
                }
            }
        }
    }
    r
}

/// a folded instruction: its operands after the immediates are instructions, as many and of the types it takes
pub fn check_folded(diags: &mut Vec<Diagnostic>, service: &LanguageService, uri: InternUri, line_index: &LineIndex, node: SyntaxNode, symbol_table: &SymbolTable) {
    if let Some(instr) = PlainInstr::cast(node) {
        if let Some(name) = instr.instr_name() {
            if instr.l_paren_token().is_some() {
                let name = name.text();
                let meta = data_set::INSTR_METAS.get(name);
                let declared = match meta {
                    Some(meta) => meta.operands_count,
                    None => Default::default(),
                };
                let written = instr.operands().take_while(|it| it.instr().is_none()).count();
                let immediates = if name == "call" {
                    1
                } else if name.contains(".load") || name.contains(".store") {
                    written.min(declared + 1)
                } else if name == "select" || name.starts_with("table.") {
                    written.min(declared)
                } else {
                    declared
                };
                let mut received = vec![];
                for operand in instr.operands().skip(immediates) {
                    match operand.instr() {
                        Some(inner) => {
                            if let Some(types) = resolve_type(service, uri, symbol_table, &inner) {
                                for ty in types {
                                    received.push((ty, operand));
                                }
                            }
                        }
                        None => {
                            if meta.is_some() {
                                diags.push(spec_error(line_index, operand.syntax().text_range(), "expected instr".into(), None));
                            }
                        }
                    }
                }
                if let Some(expected) = resolve_expected_types(service, uri, symbol_table, &instr, meta) {
                    let want = expected.len() + immediates;
                    let got = received.len() + instr.operands().filter(|it| it.instr().is_none()).count();
                    if want != got {
                        diags.push(spec_error(line_index, instr.syntax().text_range(), build_incorrect_operands_count_msg(want, got), None));
                    }
                    diags.extend(spec_mismatches(service, uri, line_index, expected, received));
                }
            }
        }
    }
}

/// a sequence of instructions: each takes its operands from the stack and leaves its results on it
pub fn check_stacked(diags: &mut Vec<Diagnostic>, service: &LanguageService, uri: InternUri, line_index: &LineIndex, node: &SyntaxNode, symbol_table: &SymbolTable) {
    let all_folded = !node.children().any(|it| {
        (it.kind() == SyntaxKind::PLAIN_INSTR || it.kind() == SyntaxKind::BLOCK_BLOCK || it.kind() == SyntaxKind::BLOCK_IF || it.kind() == SyntaxKind::BLOCK_LOOP)
            && token(&it, SyntaxKind::L_PAREN).is_none()
    });
    if !all_folded {
        let mut stack = vec![];
        for instr in children::<Instr>(node) {
            if let Instr::Plain(plain) = instr {
                if let Some(name) = plain.instr_name() {
                    if let Some(expected) = resolve_expected_types(service, uri, symbol_table, &plain, data_set::INSTR_METAS.get(name.text())) {
                        let takes = match plain.l_paren_token() {
                            Some(_) => 0,
                            None => expected.len(),
                        };
                        let kept = match stack.len().checked_sub(takes) {
                            Some(kept) => kept,
                            None => {
                                diags.push(spec_error(line_index, instr.syntax().text_range(), build_incorrect_operands_count_msg(takes, stack.len()), None));
                                0
                            }
                        };
                        let top = stack.drain(kept..);
                        diags.extend(spec_mismatches(service, uri, line_index, expected, top));
                        if let Some(types) = resolve_type(service, uri, symbol_table, &instr) {
                            for ty in types {
                                stack.push((ty, instr));
                            }
                        }
                    }
                }
            }
        }
    }
}
