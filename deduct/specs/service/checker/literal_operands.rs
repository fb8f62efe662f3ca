//! Contracts of crates/service/src/checker/literal_operands.rs.

fn spec_wrong(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, token: SyntaxToken, message: String) {
    diags.push(Diagnostic {
        range: helpers::rowan_range_to_lsp_range(line_index, token.text_range()),
        severity: Some(DiagnosticSeverity::ERROR),
        source: Some("wat".into()),
        message: message,
        ..Default::default()
    });
}

/// the operand, if it is written, must begin with one of the two kinds of token
fn spec_expect(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, operand: Option<Operand>, a: SyntaxKind, b: SyntaxKind, message: String) {
    if let Some(operand) = operand {
        if let Some(token) = operand.syntax().first_token() {
            if token.kind() != a && token.kind() != b {
                spec_wrong(diags, line_index, token, message);
            }
        }
    }
}

fn spec_expect_index(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, operand: Option<Operand>) {
    spec_expect(diags, line_index, operand, SyntaxKind::IDENT, SyntaxKind::INT, "expected identifier or unsigned integer")
}

fn spec_expect_mem_arg(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, operand: Option<Operand>) {
    spec_expect(diags, line_index, operand, SyntaxKind::MEM_ARG, SyntaxKind::MEM_ARG, "expected memory argument")
}

/// takes an index
fn spec_takes_index(name: &str) -> bool {
    matches!(
        name,
        "br" | "br_if" | "call" | "data.drop" | "elem.drop" | "global.get" | "global.set" | "local.get" | "local.set" | "local.tee"
            | "memory.init" | "ref.func" | "table.fill" | "table.get" | "table.grow" | "table.set" | "table.size"
    )
}

/// takes a lane number (shuffle: several)
fn spec_takes_lane(name: &str) -> bool {
    matches!(
        name,
        "i8x16.shuffle" | "i8x16.extract_lane_s" | "i8x16.extract_lane_u" | "i8x16.replace_lane"
            | "i16x8.extract_lane_s" | "i16x8.extract_lane_u" | "i16x8.replace_lane"
            | "i32x4.extract_lane" | "i32x4.replace_lane" | "i64x2.extract_lane" | "i64x2.replace_lane"
            | "f32x4.extract_lane" | "f32x4.replace_lane" | "f64x2.extract_lane" | "f64x2.replace_lane"
    )
}

fn spec_takes_mem_arg(name: &str) -> bool {
    matches!(
        name,
        "i32.load" | "i32.load8_s" | "i32.load8_u" | "i32.load16_s" | "i32.load16_u"
            | "i64.load" | "i64.load8_s" | "i64.load8_u" | "i64.load16_s" | "i64.load16_u" | "i64.load32_s" | "i64.load32_u"
            | "f32.load" | "f64.load"
            | "i32.store" | "i32.store8" | "i32.store16"
            | "i64.store" | "i64.store8" | "i64.store16" | "i64.store32"
            | "f32.store" | "f64.store"
            | "v128.load" | "v128.load8x8_s" | "v128.load8x8_u" | "v128.load16x4_s" | "v128.load16x4_u" | "v128.load32x2_s" | "v128.load32x2_u"
            | "v128.load8_splat" | "v128.load16_splat" | "v128.load32_splat" | "v128.load64_splat"
            | "v128.load32_zero" | "v128.load64_zero" | "v128.store"
    )
}

fn spec_takes_mem_arg_and_lane(name: &str) -> bool {
    matches!(
        name,
        "v128.load8_lane" | "v128.load16_lane" | "v128.load32_lane" | "v128.load64_lane"
            | "v128.store8_lane" | "v128.store16_lane" | "v128.store32_lane" | "v128.store64_lane"
    )
}

/// every immediate of the instruction is of the right lexical kind
pub fn check(diags: &mut Vec<Diagnostic>, line_index: &LineIndex, node: &SyntaxNode) {
    if let Some(token) = token(node, SyntaxKind::INSTR_NAME) {
        let name = token.text();
        let operands = children::<Operand>(node);
        let first = operands.nth(0);
        let second = operands.nth(1);
        let first_is_instr = match first {
            Some(operand) => operand.instr().is_some(),
            None => false,
        };
        let may_omit = name.starts_with("table.") || name.contains(".load") || name.contains(".store");
        if !(may_omit && first_is_instr) {
            if spec_takes_index(name) || spec_takes_lane(name) {
                spec_expect_index(diags, line_index, first);
            } else if name == "i32.const" || name == "i64.const" || name == "v128.const" {
                spec_expect(diags, line_index, first, SyntaxKind::INT, SyntaxKind::INT, "expected integer");
            } else if name == "f32.const" || name == "f64.const" {
                spec_expect(diags, line_index, first, SyntaxKind::FLOAT, SyntaxKind::INT, "expected floating-point number");
            } else if name == "table.init" || name == "table.copy" {
                spec_expect_index(diags, line_index, first);
                if let Some(operand) = second {
                    if operand.instr().is_none() {
                        spec_expect_index(diags, line_index, second);
                    }
                }
            } else if spec_takes_mem_arg(name) {
                spec_expect_mem_arg(diags, line_index, first);
            } else if spec_takes_mem_arg_and_lane(name) {
                // up to two parts of a memory argument in front of the lane
                let written = operands.take_while(|it| it.instr().is_none()).count();
                if written <= 1 {
                    spec_expect_index(diags, line_index, first);
                } else if written == 2 {
                    spec_expect_mem_arg(diags, line_index, first);
                    spec_expect_index(diags, line_index, second);
                } else {
                    spec_expect_mem_arg(diags, line_index, first);
                    spec_expect_mem_arg(diags, line_index, second);
                    spec_expect_index(diags, line_index, operands.nth(2));
                }
            }
        }
    }
}
