#!/usr/bin/env python3
"""Writes harness/src/bin/p04.rs: what each typed AST wrapper stands for, written from the meaning of the
names (independent of the sources under check): wrapper -> kind, accessor -> children it gives."""
import re, os
TOK = {"l_paren_token": "L_PAREN", "r_paren_token": "R_PAREN", "keyword": "KEYWORD", "ident_token": "IDENT",
       "string_token": "STRING", "unsigned_int_token": "UNSIGNED_INT", "ref_type": "REF_TYPE",
       "num_type": "NUM_TYPE", "vec_type": "VEC_TYPE", "mut_keyword": "KEYWORD", "func_keyword": "KEYWORD",
       "float": "FLOAT", "int": "INT", "string": "STRING", "ident": "IDENT", "mem_arg": "MEM_ARG",
       "heap_type": "HEAP_TYPE", "instr_name": "INSTR_NAME", "min": "UNSIGNED_INT", "share": "SHARE"}
SUM = {"BlockInstr": ["BLOCK_BLOCK", "BLOCK_LOOP", "BLOCK_IF"],
       "Instr": ["BLOCK_BLOCK", "BLOCK_LOOP", "BLOCK_IF", "PLAIN_INSTR"],
       "ExportDesc": ["EXPORT_DESC_FUNC", "EXPORT_DESC_GLOBAL", "EXPORT_DESC_MEMORY", "EXPORT_DESC_TABLE"],
       "ImportDesc": ["IMPORT_DESC_TYPE_USE", "IMPORT_DESC_TABLE_TYPE", "IMPORT_DESC_MEMORY_TYPE", "IMPORT_DESC_GLOBAL_TYPE"],
       "ModuleField": ["MODULE_FIELD_" + k for k in "DATA ELEM EXPORT FUNC GLOBAL IMPORT MEMORY START TABLE TYPE".split()]}
# accessors: t = first token, c = first child, * = all children; block labels and a few others are special
P = "l_paren_token r_paren_token keyword"
W = {
 "Data": P + " +string_tokens", "Elem": P + " *elem_exprs:ElemExpr *indexes:Index", "ElemExpr": P + " *instrs:Instr",
 "ElemList": "func_keyword ref_type *indexes:Index *elem_exprs:ElemExpr", "Export": P + " .name:Name",
 "ExportDescFunc": P + " .index:Index", "ExportDescGlobal": P + " .index:Index", "ExportDescMemory": P + " .index:Index",
 "ExportDescTable": P + " .index:Index", "Import": P + " .module_name:ModuleName .name:Name",
 "ImportDescGlobalType": P + " ident_token .global_type:GlobalType", "ImportDescMemoryType": P + " ident_token .memory_type:MemoryType",
 "ImportDescTableType": P + " ident_token .table_type:TableType", "ImportDescTypeUse": P + " ident_token .type_use:TypeUse",
 "Index": "ident_token unsigned_int_token", "Local": P + " ident_token *val_types:ValType", "MemUse": P + " .index:Index",
 "Module": P + " ident_token *module_fields:ModuleField",
 "ModuleFieldData": P + " ident_token .mem_use:MemUse .offset:Offset +string_tokens",
 "ModuleFieldElem": P + " ident_token .table_use:TableUse .offset:Offset .elem_list:ElemList =declare_keyword:declare",
 "ModuleFieldExport": P + " .name:Name .export_desc:ExportDesc",
 "ModuleFieldFunc": P + " ident_token .import:Import *exports:Export .type_use:TypeUse *locals:Local *instrs:Instr",
 "ModuleFieldGlobal": P + " ident_token .import:Import .export:Export .global_type:GlobalType *instrs:Instr",
 "ModuleFieldImport": P + " .module_name:ModuleName .name:Name .import_desc:ImportDesc",
 "ModuleFieldMemory": P + " ident_token .import:Import .export:Export .memory_type:MemoryType .data:Data",
 "ModuleFieldStart": P + " .index:Index",
 "ModuleFieldTable": P + " ident_token .import:Import .export:Export .table_type:TableType ref_type .elem:Elem",
 "ModuleFieldType": P + " ident_token .func_type:FuncType", "ModuleName": "string_token", "Name": "string_token",
 "Offset": P + " *instrs:Instr", "TableUse": P + " .index:Index",
 "TypeUse": P + " .index:Index *params:Param *results:Result",
 "BlockBlock": P + " .block_type:BlockType *instrs:Instr =end_keyword:end <ident_token >end_ident_token",
 "BlockIf": P + " .block_type:BlockType *instrs:Instr =end_keyword:end <ident_token >end_ident_token .then_block:BlockIfThen .else_block:BlockIfElse",
 "BlockLoop": P + " .block_type:BlockType *instrs:Instr =end_keyword:end <ident_token >end_ident_token",
 "BlockIfElse": P + " *instrs:Instr", "BlockIfThen": P + " *instrs:Instr",
 "BlockType": ".result:Result .type_use:TypeUse",
 "Operand": "float int string ident mem_arg heap_type .type_use:TypeUse .instr:Instr",
 "PlainInstr": "l_paren_token r_paren_token instr_name *operands:Operand",
 "FuncType": P + " *params:Param *results:Result", "GlobalType": "l_paren_token r_paren_token mut_keyword .val_type:ValType",
 "Limits": "min share 1max", "MemoryType": ".limits:Limits", "Param": P + " ident_token *val_types:ValType",
 "Result": P + " *val_types:ValType", "TableType": ".limits:Limits ref_type",
 "ValType": "num_type vec_type ref_type", "Root": "*modules:Module",
}
SNAKE = lambda n: re.sub(r"(?<!^)([A-Z])", r"_\1", n).upper()
def kinds(t): return SUM.get(t, [SNAKE(t)])
def ks(t): return "&[" + ", ".join("K::" + k for k in kinds(t)) + "]"
rows, casts = [], []
for t in list(W) + list(SUM):
    casts.append(f"    cast::<A::{t}>(\"{t}\", {ks(t)}, trees, n)?;")
for t, accs in W.items():
    for a in accs.split():
        m = re.match(r"([.*+=<>1]?)(\w+)(?::(\w+))?$", a); op, name, arg = m.groups()
        x = f"A::{t}::cast(node.clone()).unwrap().{name}()"
        if op == "": got, want = f"tk({x})", f"first(node, K::{TOK[name]})"
        elif op == ".": got, want = f"nd({x})", f"child(node, {ks(arg)})"
        elif op == "*": got, want = f"nds({x})", f"children(node, {ks(arg)})"
        elif op == "+": got, want = f"{x}.map(|t| pos(&t)).collect::<Vec<_>>()", "all(node, K::STRING)"
        elif op == "=": got, want = f"tk({x})", f"word(node, \"{arg}\")"
        elif op == "<": got, want = f"tk({x})", f"label(node, false, &{x}.iter().map(pos).collect::<Vec<_>>())"
        elif op == ">": got, want = f"tk({x})", f"label(node, true, &{x}.iter().map(pos).collect::<Vec<_>>())"
        else: got, want = f"tk({x})", "all(node, K::UNSIGNED_INT).into_iter().nth(1).into_iter().collect()"
        rows.append(f"    acc(\"{t}::{name}\", trees, K::{kinds(t)[0]}, n, |node| ({got}, {want}))?;")
NK = [SNAKE(t) for t in W]
open(os.path.join(os.path.dirname(__file__), "../harness/src/bin/p04.rs"), "w").write('''// Written by tools/mkp04.py; do not edit.
//! Every wrapper type against every syntax kind, and every accessor against trees with children of all
//! kinds in many orders.
use rowan::{ast::{AstChildren, AstNode}, GreenNode, GreenToken, NodeOrToken};
use wat_syntax::{ast as A, SyntaxElement, SyntaxKind as K, SyntaxNode, SyntaxToken, WatLanguage};

const TOKENS: &[K] = &[K::WHITESPACE, K::LINE_COMMENT, K::BLOCK_COMMENT, K::L_PAREN, K::R_PAREN, K::KEYWORD, K::INSTR_NAME,
    K::IDENT, K::STRING, K::INT, K::UNSIGNED_INT, K::FLOAT, K::NUM_TYPE, K::VEC_TYPE, K::REF_TYPE, K::HEAP_TYPE, K::SHARE,
    K::MEM_ARG, K::ERROR];
const NODES: &[K] = &[''' + ", ".join("K::" + k for k in NK) + '''];
type P = (usize, usize);
fn pos(t: &SyntaxToken) -> P {
    (t.text_range().start().into(), t.index())
}
fn npos(t: &SyntaxNode) -> P {
    (t.text_range().start().into(), t.index())
}
fn tk(t: Option<SyntaxToken>) -> Vec<P> {
    t.iter().map(pos).collect()
}
fn nd<T: AstNode<Language = WatLanguage>>(t: Option<T>) -> Vec<P> {
    t.iter().map(|t| npos(t.syntax())).collect()
}
fn nds<T: AstNode<Language = WatLanguage>>(t: AstChildren<T>) -> Vec<P> {
    t.map(|t| npos(t.syntax())).collect()
}
fn tokens(n: &SyntaxNode) -> Vec<SyntaxToken> {
    n.children_with_tokens().filter_map(SyntaxElement::into_token).collect()
}
fn all(n: &SyntaxNode, k: K) -> Vec<P> {
    tokens(n).iter().filter(|t| t.kind() == k).map(pos).collect()
}
fn first(n: &SyntaxNode, k: K) -> Vec<P> {
    all(n, k).into_iter().take(1).collect()
}
fn word(n: &SyntaxNode, w: &str) -> Vec<P> {
    tokens(n).iter().filter(|t| t.kind() == K::KEYWORD && t.text() == w).map(pos).take(1).collect()
}
fn children(n: &SyntaxNode, k: &[K]) -> Vec<P> {
    n.children().filter(|c| k.contains(&c.kind())).map(|c| npos(&c)).collect()
}
fn child(n: &SyntaxNode, k: &[K]) -> Vec<P> {
    children(n, k).into_iter().take(1).collect()
}
/// The label of a block is in front of its `end`, a repeated one behind it. (In trees where a `)` is in between,
/// which no block of a parsed document has, any answer will do.)
fn label(n: &SyntaxNode, after: bool, got: &[P]) -> Vec<P> {
    let ts = tokens(n);
    let by = |paren: bool| -> Vec<P> {
        let end = ts
            .iter()
            .position(|t| t.kind() == K::KEYWORD && t.text() == "end" || paren && t.kind() == K::R_PAREN)
            .unwrap_or(ts.len());
        let part = if after { &ts[end..] } else { &ts[..end] };
        part.iter().filter(|t| t.kind() == K::IDENT).map(pos).take(1).collect()
    };
    if by(true) == by(false) {
        by(true)
    } else {
        got.to_vec()
    }
}

struct R(u64);
impl R {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) % n as u64) as usize
    }
}
type C = Vec<NodeOrToken<GreenNode, GreenToken>>;
fn build(r: &mut R) -> C {
    let mut v: C = vec![];
    let many = r.below(3);
    for k in TOKENS {
        for _ in 0..match many { 0 => 1, 1 => 2, _ => r.below(3) } {
            let text = match k {
                K::KEYWORD => ["end", "declare", "func", "module"][r.below(4)],
                _ => "x",
            };
            v.push(GreenToken::new((*k).into(), text).into());
        }
    }
    for k in NODES {
        for _ in 0..match many { 0 => 1, 1 => 2, _ => r.below(3) } {
            v.push(GreenNode::new((*k).into(), [GreenToken::new(K::ERROR.into(), "y").into()]).into());
        }
    }
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    v
}
fn cast<T: AstNode<Language = WatLanguage>>(name: &str, ks: &[K], trees: &[C], n: &mut usize) -> Result<(), String> {
    for k in TOKENS.iter().chain(NODES) {
        *n += 1;
        if T::can_cast(*k) != ks.contains(k) {
            return Err(format!("{name}::can_cast({k:?}) is {}", T::can_cast(*k)));
        }
    }
    for k in NODES {
        let node = SyntaxNode::new_root(GreenNode::new((*k).into(), trees[0].clone()));
        *n += 1;
        match T::cast(node.clone()) {
            Some(t) if ks.contains(k) => {
                if t.syntax() != &node {
                    return Err(format!("{name}::cast gives another node than the {k:?} given"));
                }
            }
            None if !ks.contains(k) => {}
            t => return Err(format!("{name}::cast of {k:?} is {}", if t.is_some() { "accepted" } else { "rejected" })),
        }
    }
    Ok(())
}
fn acc(name: &str, trees: &[C], k: K, n: &mut usize, f: impl Fn(&SyntaxNode) -> (Vec<P>, Vec<P>)) -> Result<(), String> {
    for t in trees {
        let node = SyntaxNode::new_root(GreenNode::new(k.into(), t.clone()));
        let (got, want) = f(&node);
        *n += 1;
        if got != want {
            let show = |v: &[P]| {
                let v: Vec<String> = v.iter().map(|p| format!("child {} ({:?})", p.1, node.children_with_tokens().nth(p.1).map(|c| c.kind()))).collect();
                v.join(", ")
            };
            let kids: Vec<String> = node.children_with_tokens().map(|c| format!("{:?}", c.kind())).collect();
            return Err(format!("{name} gives [{}], expected [{}], of the children {}", show(&got), show(&want), kids.join(" ")));
        }
    }
    Ok(())
}
fn check(trees: &[C], n: &mut usize) -> Result<(), String> {
    use rowan::Language;
    for (i, k) in TOKENS.iter().chain(NODES).enumerate() {
        *n += 1;
        let raw: rowan::SyntaxKind = (*k).into();
        if WatLanguage::kind_from_raw(raw) != *k || WatLanguage::kind_to_raw(*k) != raw {
            return Err(format!("{k:?} does not survive the conversion to the raw kind and back"));
        }
        if TOKENS.iter().chain(NODES).skip(i + 1).any(|l| rowan::SyntaxKind::from(*l) == raw) {
            return Err(format!("{k:?} shares its raw kind with another kind"));
        }
    }
''' + "\n".join(casts + rows) + '''
    Ok(())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let many: usize = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(200);
    let mut r = R(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let trees: Vec<C> = (0..many).map(|_| build(&mut r)).chain([vec![]]).collect();
    let mut n = 0;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(&trees, &mut n)));
    let fails: Vec<String> = match res {
        Ok(Ok(())) => vec![],
        Ok(Err(m)) => vec![m],
        Err(_) => vec!["panicked".into()],
    };
    let f: Vec<_> = fails.iter().map(|m| serde_json::json!({"input": serde_json::Value::Null, "message": m})).collect();
    println!("{}", serde_json::json!({"id": "P04", "evaluations": n, "skipped": 0, "facts": n, "distinct": n, "samples": [], "failures": f}));
    std::process::exit(i32::from(!fails.is_empty()));
}
''')
