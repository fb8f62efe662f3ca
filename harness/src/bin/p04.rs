// Written by tools/mkp04.py; do not edit.
//! Every wrapper type against every syntax kind, and every accessor against trees with children of all
//! kinds in many orders.
use rowan::{ast::{AstChildren, AstNode}, GreenNode, GreenToken, NodeOrToken};
use wat_syntax::{ast as A, SyntaxElement, SyntaxKind as K, SyntaxNode, SyntaxToken, WatLanguage};

const TOKENS: &[K] = &[K::WHITESPACE, K::LINE_COMMENT, K::BLOCK_COMMENT, K::L_PAREN, K::R_PAREN, K::KEYWORD, K::INSTR_NAME,
    K::IDENT, K::STRING, K::INT, K::UNSIGNED_INT, K::FLOAT, K::NUM_TYPE, K::VEC_TYPE, K::REF_TYPE, K::HEAP_TYPE, K::SHARE,
    K::MEM_ARG, K::ERROR];
const NODES: &[K] = &[K::DATA, K::ELEM, K::ELEM_EXPR, K::ELEM_LIST, K::EXPORT, K::EXPORT_DESC_FUNC, K::EXPORT_DESC_GLOBAL, K::EXPORT_DESC_MEMORY, K::EXPORT_DESC_TABLE, K::IMPORT, K::IMPORT_DESC_GLOBAL_TYPE, K::IMPORT_DESC_MEMORY_TYPE, K::IMPORT_DESC_TABLE_TYPE, K::IMPORT_DESC_TYPE_USE, K::INDEX, K::LOCAL, K::MEM_USE, K::MODULE, K::MODULE_FIELD_DATA, K::MODULE_FIELD_ELEM, K::MODULE_FIELD_EXPORT, K::MODULE_FIELD_FUNC, K::MODULE_FIELD_GLOBAL, K::MODULE_FIELD_IMPORT, K::MODULE_FIELD_MEMORY, K::MODULE_FIELD_START, K::MODULE_FIELD_TABLE, K::MODULE_FIELD_TYPE, K::MODULE_NAME, K::NAME, K::OFFSET, K::TABLE_USE, K::TYPE_USE, K::BLOCK_BLOCK, K::BLOCK_IF, K::BLOCK_LOOP, K::BLOCK_IF_ELSE, K::BLOCK_IF_THEN, K::BLOCK_TYPE, K::OPERAND, K::PLAIN_INSTR, K::FUNC_TYPE, K::GLOBAL_TYPE, K::LIMITS, K::MEMORY_TYPE, K::PARAM, K::RESULT, K::TABLE_TYPE, K::VAL_TYPE, K::ROOT];
type P = (usize, usize);
fn pos(t: &SyntaxToken) -> P {
    (t.text_range().start().into(), t.index())
}
fn npos(t: &SyntaxNode) -> P {
    (t.text_range().start().into(), t.index())
}
fn tk(t: Option<SyntaxToken>) -> Vec<P> {
    t.iter().map(pos).collect()
}
fn nd<T: AstNode<Language = WatLanguage>>(t: Option<T>) -> Vec<P> {
    t.iter().map(|t| npos(t.syntax())).collect()
}
fn nds<T: AstNode<Language = WatLanguage>>(t: AstChildren<T>) -> Vec<P> {
    t.map(|t| npos(t.syntax())).collect()
}
fn tokens(n: &SyntaxNode) -> Vec<SyntaxToken> {
    n.children_with_tokens().filter_map(SyntaxElement::into_token).collect()
}
fn all(n: &SyntaxNode, k: K) -> Vec<P> {
    tokens(n).iter().filter(|t| t.kind() == k).map(pos).collect()
}
fn first(n: &SyntaxNode, k: K) -> Vec<P> {
    all(n, k).into_iter().take(1).collect()
}
fn word(n: &SyntaxNode, w: &str) -> Vec<P> {
    tokens(n).iter().filter(|t| t.kind() == K::KEYWORD && t.text() == w).map(pos).take(1).collect()
}
fn children(n: &SyntaxNode, k: &[K]) -> Vec<P> {
    n.children().filter(|c| k.contains(&c.kind())).map(|c| npos(&c)).collect()
}
fn child(n: &SyntaxNode, k: &[K]) -> Vec<P> {
    children(n, k).into_iter().take(1).collect()
}
/// The label of a block is in front of its `end`, a repeated one behind it. (In trees where a `)` is in between,
/// which no block of a parsed document has, any answer will do.)
fn label(n: &SyntaxNode, after: bool, got: &[P]) -> Vec<P> {
    let ts = tokens(n);
    let by = |paren: bool| -> Vec<P> {
        let end = ts
            .iter()
            .position(|t| t.kind() == K::KEYWORD && t.text() == "end" || paren && t.kind() == K::R_PAREN)
            .unwrap_or(ts.len());
        let part = if after { &ts[end..] } else { &ts[..end] };
        part.iter().filter(|t| t.kind() == K::IDENT).map(pos).take(1).collect()
    };
    if by(true) == by(false) {
        by(true)
    } else {
        got.to_vec()
    }
}

struct R(u64);
impl R {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) % n as u64) as usize
    }
}
type C = Vec<NodeOrToken<GreenNode, GreenToken>>;
fn build(r: &mut R) -> C {
    let mut v: C = vec![];
    let many = r.below(3);
    for k in TOKENS {
        for _ in 0..match many { 0 => 1, 1 => 2, _ => r.below(3) } {
            let text = match k {
                K::KEYWORD => ["end", "declare", "func", "module"][r.below(4)],
                _ => "x",
            };
            v.push(GreenToken::new((*k).into(), text).into());
        }
    }
    for k in NODES {
        for _ in 0..match many { 0 => 1, 1 => 2, _ => r.below(3) } {
            v.push(GreenNode::new((*k).into(), [GreenToken::new(K::ERROR.into(), "y").into()]).into());
        }
    }
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    v
}
fn cast<T: AstNode<Language = WatLanguage>>(name: &str, ks: &[K], trees: &[C], n: &mut usize) -> Result<(), String> {
    for k in TOKENS.iter().chain(NODES) {
        *n += 1;
        if T::can_cast(*k) != ks.contains(k) {
            return Err(format!("{name}::can_cast({k:?}) is {}", T::can_cast(*k)));
        }
    }
    for k in NODES {
        let node = SyntaxNode::new_root(GreenNode::new((*k).into(), trees[0].clone()));
        *n += 1;
        match T::cast(node.clone()) {
            Some(t) if ks.contains(k) => {
                if t.syntax() != &node {
                    return Err(format!("{name}::cast gives another node than the {k:?} given"));
                }
            }
            None if !ks.contains(k) => {}
            t => return Err(format!("{name}::cast of {k:?} is {}", if t.is_some() { "accepted" } else { "rejected" })),
        }
    }
    Ok(())
}
fn acc(name: &str, trees: &[C], k: K, n: &mut usize, f: impl Fn(&SyntaxNode) -> (Vec<P>, Vec<P>)) -> Result<(), String> {
    for t in trees {
        let node = SyntaxNode::new_root(GreenNode::new(k.into(), t.clone()));
        let (got, want) = f(&node);
        *n += 1;
        if got != want {
            let show = |v: &[P]| {
                let v: Vec<String> = v.iter().map(|p| format!("child {} ({:?})", p.1, node.children_with_tokens().nth(p.1).map(|c| c.kind()))).collect();
                v.join(", ")
            };
            let kids: Vec<String> = node.children_with_tokens().map(|c| format!("{:?}", c.kind())).collect();
            return Err(format!("{name} gives [{}], expected [{}], of the children {}", show(&got), show(&want), kids.join(" ")));
        }
    }
    Ok(())
}
fn check(trees: &[C], n: &mut usize) -> Result<(), String> {
    use rowan::Language;
    for (i, k) in TOKENS.iter().chain(NODES).enumerate() {
        *n += 1;
        let raw: rowan::SyntaxKind = (*k).into();
        if WatLanguage::kind_from_raw(raw) != *k || WatLanguage::kind_to_raw(*k) != raw {
            return Err(format!("{k:?} does not survive the conversion to the raw kind and back"));
        }
        if TOKENS.iter().chain(NODES).skip(i + 1).any(|l| rowan::SyntaxKind::from(*l) == raw) {
            return Err(format!("{k:?} shares its raw kind with another kind"));
        }
    }
    cast::<A::Data>("Data", &[K::DATA], trees, n)?;
    cast::<A::Elem>("Elem", &[K::ELEM], trees, n)?;
    cast::<A::ElemExpr>("ElemExpr", &[K::ELEM_EXPR], trees, n)?;
    cast::<A::ElemList>("ElemList", &[K::ELEM_LIST], trees, n)?;
    cast::<A::Export>("Export", &[K::EXPORT], trees, n)?;
    cast::<A::ExportDescFunc>("ExportDescFunc", &[K::EXPORT_DESC_FUNC], trees, n)?;
    cast::<A::ExportDescGlobal>("ExportDescGlobal", &[K::EXPORT_DESC_GLOBAL], trees, n)?;
    cast::<A::ExportDescMemory>("ExportDescMemory", &[K::EXPORT_DESC_MEMORY], trees, n)?;
    cast::<A::ExportDescTable>("ExportDescTable", &[K::EXPORT_DESC_TABLE], trees, n)?;
    cast::<A::Import>("Import", &[K::IMPORT], trees, n)?;
    cast::<A::ImportDescGlobalType>("ImportDescGlobalType", &[K::IMPORT_DESC_GLOBAL_TYPE], trees, n)?;
    cast::<A::ImportDescMemoryType>("ImportDescMemoryType", &[K::IMPORT_DESC_MEMORY_TYPE], trees, n)?;
    cast::<A::ImportDescTableType>("ImportDescTableType", &[K::IMPORT_DESC_TABLE_TYPE], trees, n)?;
    cast::<A::ImportDescTypeUse>("ImportDescTypeUse", &[K::IMPORT_DESC_TYPE_USE], trees, n)?;
    cast::<A::Index>("Index", &[K::INDEX], trees, n)?;
    cast::<A::Local>("Local", &[K::LOCAL], trees, n)?;
    cast::<A::MemUse>("MemUse", &[K::MEM_USE], trees, n)?;
    cast::<A::Module>("Module", &[K::MODULE], trees, n)?;
    cast::<A::ModuleFieldData>("ModuleFieldData", &[K::MODULE_FIELD_DATA], trees, n)?;
    cast::<A::ModuleFieldElem>("ModuleFieldElem", &[K::MODULE_FIELD_ELEM], trees, n)?;
    cast::<A::ModuleFieldExport>("ModuleFieldExport", &[K::MODULE_FIELD_EXPORT], trees, n)?;
    cast::<A::ModuleFieldFunc>("ModuleFieldFunc", &[K::MODULE_FIELD_FUNC], trees, n)?;
    cast::<A::ModuleFieldGlobal>("ModuleFieldGlobal", &[K::MODULE_FIELD_GLOBAL], trees, n)?;
    cast::<A::ModuleFieldImport>("ModuleFieldImport", &[K::MODULE_FIELD_IMPORT], trees, n)?;
    cast::<A::ModuleFieldMemory>("ModuleFieldMemory", &[K::MODULE_FIELD_MEMORY], trees, n)?;
    cast::<A::ModuleFieldStart>("ModuleFieldStart", &[K::MODULE_FIELD_START], trees, n)?;
    cast::<A::ModuleFieldTable>("ModuleFieldTable", &[K::MODULE_FIELD_TABLE], trees, n)?;
    cast::<A::ModuleFieldType>("ModuleFieldType", &[K::MODULE_FIELD_TYPE], trees, n)?;
    cast::<A::ModuleName>("ModuleName", &[K::MODULE_NAME], trees, n)?;
    cast::<A::Name>("Name", &[K::NAME], trees, n)?;
    cast::<A::Offset>("Offset", &[K::OFFSET], trees, n)?;
    cast::<A::TableUse>("TableUse", &[K::TABLE_USE], trees, n)?;
    cast::<A::TypeUse>("TypeUse", &[K::TYPE_USE], trees, n)?;
    cast::<A::BlockBlock>("BlockBlock", &[K::BLOCK_BLOCK], trees, n)?;
    cast::<A::BlockIf>("BlockIf", &[K::BLOCK_IF], trees, n)?;
    cast::<A::BlockLoop>("BlockLoop", &[K::BLOCK_LOOP], trees, n)?;
    cast::<A::BlockIfElse>("BlockIfElse", &[K::BLOCK_IF_ELSE], trees, n)?;
    cast::<A::BlockIfThen>("BlockIfThen", &[K::BLOCK_IF_THEN], trees, n)?;
    cast::<A::BlockType>("BlockType", &[K::BLOCK_TYPE], trees, n)?;
    cast::<A::Operand>("Operand", &[K::OPERAND], trees, n)?;
    cast::<A::PlainInstr>("PlainInstr", &[K::PLAIN_INSTR], trees, n)?;
    cast::<A::FuncType>("FuncType", &[K::FUNC_TYPE], trees, n)?;
    cast::<A::GlobalType>("GlobalType", &[K::GLOBAL_TYPE], trees, n)?;
    cast::<A::Limits>("Limits", &[K::LIMITS], trees, n)?;
    cast::<A::MemoryType>("MemoryType", &[K::MEMORY_TYPE], trees, n)?;
    cast::<A::Param>("Param", &[K::PARAM], trees, n)?;
    cast::<A::Result>("Result", &[K::RESULT], trees, n)?;
    cast::<A::TableType>("TableType", &[K::TABLE_TYPE], trees, n)?;
    cast::<A::ValType>("ValType", &[K::VAL_TYPE], trees, n)?;
    cast::<A::Root>("Root", &[K::ROOT], trees, n)?;
    cast::<A::BlockInstr>("BlockInstr", &[K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF], trees, n)?;
    cast::<A::Instr>("Instr", &[K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF, K::PLAIN_INSTR], trees, n)?;
    cast::<A::ExportDesc>("ExportDesc", &[K::EXPORT_DESC_FUNC, K::EXPORT_DESC_GLOBAL, K::EXPORT_DESC_MEMORY, K::EXPORT_DESC_TABLE], trees, n)?;
    cast::<A::ImportDesc>("ImportDesc", &[K::IMPORT_DESC_TYPE_USE, K::IMPORT_DESC_TABLE_TYPE, K::IMPORT_DESC_MEMORY_TYPE, K::IMPORT_DESC_GLOBAL_TYPE], trees, n)?;
    cast::<A::ModuleField>("ModuleField", &[K::MODULE_FIELD_DATA, K::MODULE_FIELD_ELEM, K::MODULE_FIELD_EXPORT, K::MODULE_FIELD_FUNC, K::MODULE_FIELD_GLOBAL, K::MODULE_FIELD_IMPORT, K::MODULE_FIELD_MEMORY, K::MODULE_FIELD_START, K::MODULE_FIELD_TABLE, K::MODULE_FIELD_TYPE], trees, n)?;
    acc("Data::l_paren_token", trees, K::DATA, n, |node| (tk(A::Data::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("Data::r_paren_token", trees, K::DATA, n, |node| (tk(A::Data::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("Data::keyword", trees, K::DATA, n, |node| (tk(A::Data::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("Data::string_tokens", trees, K::DATA, n, |node| (A::Data::cast(node.clone()).unwrap().string_tokens().map(|t| pos(&t)).collect::<Vec<_>>(), all(node, K::STRING)))?;
    acc("Elem::l_paren_token", trees, K::ELEM, n, |node| (tk(A::Elem::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("Elem::r_paren_token", trees, K::ELEM, n, |node| (tk(A::Elem::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("Elem::keyword", trees, K::ELEM, n, |node| (tk(A::Elem::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("Elem::elem_exprs", trees, K::ELEM, n, |node| (nds(A::Elem::cast(node.clone()).unwrap().elem_exprs()), children(node, &[K::ELEM_EXPR])))?;
    acc("Elem::indexes", trees, K::ELEM, n, |node| (nds(A::Elem::cast(node.clone()).unwrap().indexes()), children(node, &[K::INDEX])))?;
    acc("ElemExpr::l_paren_token", trees, K::ELEM_EXPR, n, |node| (tk(A::ElemExpr::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ElemExpr::r_paren_token", trees, K::ELEM_EXPR, n, |node| (tk(A::ElemExpr::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ElemExpr::keyword", trees, K::ELEM_EXPR, n, |node| (tk(A::ElemExpr::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ElemExpr::instrs", trees, K::ELEM_EXPR, n, |node| (nds(A::ElemExpr::cast(node.clone()).unwrap().instrs()), children(node, &[K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF, K::PLAIN_INSTR])))?;
    acc("ElemList::func_keyword", trees, K::ELEM_LIST, n, |node| (tk(A::ElemList::cast(node.clone()).unwrap().func_keyword()), first(node, K::KEYWORD)))?;
    acc("ElemList::ref_type", trees, K::ELEM_LIST, n, |node| (tk(A::ElemList::cast(node.clone()).unwrap().ref_type()), first(node, K::REF_TYPE)))?;
    acc("ElemList::indexes", trees, K::ELEM_LIST, n, |node| (nds(A::ElemList::cast(node.clone()).unwrap().indexes()), children(node, &[K::INDEX])))?;
    acc("ElemList::elem_exprs", trees, K::ELEM_LIST, n, |node| (nds(A::ElemList::cast(node.clone()).unwrap().elem_exprs()), children(node, &[K::ELEM_EXPR])))?;
    acc("Export::l_paren_token", trees, K::EXPORT, n, |node| (tk(A::Export::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("Export::r_paren_token", trees, K::EXPORT, n, |node| (tk(A::Export::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("Export::keyword", trees, K::EXPORT, n, |node| (tk(A::Export::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("Export::name", trees, K::EXPORT, n, |node| (nd(A::Export::cast(node.clone()).unwrap().name()), child(node, &[K::NAME])))?;
    acc("ExportDescFunc::l_paren_token", trees, K::EXPORT_DESC_FUNC, n, |node| (tk(A::ExportDescFunc::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ExportDescFunc::r_paren_token", trees, K::EXPORT_DESC_FUNC, n, |node| (tk(A::ExportDescFunc::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ExportDescFunc::keyword", trees, K::EXPORT_DESC_FUNC, n, |node| (tk(A::ExportDescFunc::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ExportDescFunc::index", trees, K::EXPORT_DESC_FUNC, n, |node| (nd(A::ExportDescFunc::cast(node.clone()).unwrap().index()), child(node, &[K::INDEX])))?;
    acc("ExportDescGlobal::l_paren_token", trees, K::EXPORT_DESC_GLOBAL, n, |node| (tk(A::ExportDescGlobal::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ExportDescGlobal::r_paren_token", trees, K::EXPORT_DESC_GLOBAL, n, |node| (tk(A::ExportDescGlobal::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ExportDescGlobal::keyword", trees, K::EXPORT_DESC_GLOBAL, n, |node| (tk(A::ExportDescGlobal::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ExportDescGlobal::index", trees, K::EXPORT_DESC_GLOBAL, n, |node| (nd(A::ExportDescGlobal::cast(node.clone()).unwrap().index()), child(node, &[K::INDEX])))?;
    acc("ExportDescMemory::l_paren_token", trees, K::EXPORT_DESC_MEMORY, n, |node| (tk(A::ExportDescMemory::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ExportDescMemory::r_paren_token", trees, K::EXPORT_DESC_MEMORY, n, |node| (tk(A::ExportDescMemory::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ExportDescMemory::keyword", trees, K::EXPORT_DESC_MEMORY, n, |node| (tk(A::ExportDescMemory::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ExportDescMemory::index", trees, K::EXPORT_DESC_MEMORY, n, |node| (nd(A::ExportDescMemory::cast(node.clone()).unwrap().index()), child(node, &[K::INDEX])))?;
    acc("ExportDescTable::l_paren_token", trees, K::EXPORT_DESC_TABLE, n, |node| (tk(A::ExportDescTable::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ExportDescTable::r_paren_token", trees, K::EXPORT_DESC_TABLE, n, |node| (tk(A::ExportDescTable::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ExportDescTable::keyword", trees, K::EXPORT_DESC_TABLE, n, |node| (tk(A::ExportDescTable::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ExportDescTable::index", trees, K::EXPORT_DESC_TABLE, n, |node| (nd(A::ExportDescTable::cast(node.clone()).unwrap().index()), child(node, &[K::INDEX])))?;
    acc("Import::l_paren_token", trees, K::IMPORT, n, |node| (tk(A::Import::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("Import::r_paren_token", trees, K::IMPORT, n, |node| (tk(A::Import::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("Import::keyword", trees, K::IMPORT, n, |node| (tk(A::Import::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("Import::module_name", trees, K::IMPORT, n, |node| (nd(A::Import::cast(node.clone()).unwrap().module_name()), child(node, &[K::MODULE_NAME])))?;
    acc("Import::name", trees, K::IMPORT, n, |node| (nd(A::Import::cast(node.clone()).unwrap().name()), child(node, &[K::NAME])))?;
    acc("ImportDescGlobalType::l_paren_token", trees, K::IMPORT_DESC_GLOBAL_TYPE, n, |node| (tk(A::ImportDescGlobalType::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ImportDescGlobalType::r_paren_token", trees, K::IMPORT_DESC_GLOBAL_TYPE, n, |node| (tk(A::ImportDescGlobalType::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ImportDescGlobalType::keyword", trees, K::IMPORT_DESC_GLOBAL_TYPE, n, |node| (tk(A::ImportDescGlobalType::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ImportDescGlobalType::ident_token", trees, K::IMPORT_DESC_GLOBAL_TYPE, n, |node| (tk(A::ImportDescGlobalType::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("ImportDescGlobalType::global_type", trees, K::IMPORT_DESC_GLOBAL_TYPE, n, |node| (nd(A::ImportDescGlobalType::cast(node.clone()).unwrap().global_type()), child(node, &[K::GLOBAL_TYPE])))?;
    acc("ImportDescMemoryType::l_paren_token", trees, K::IMPORT_DESC_MEMORY_TYPE, n, |node| (tk(A::ImportDescMemoryType::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ImportDescMemoryType::r_paren_token", trees, K::IMPORT_DESC_MEMORY_TYPE, n, |node| (tk(A::ImportDescMemoryType::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ImportDescMemoryType::keyword", trees, K::IMPORT_DESC_MEMORY_TYPE, n, |node| (tk(A::ImportDescMemoryType::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ImportDescMemoryType::ident_token", trees, K::IMPORT_DESC_MEMORY_TYPE, n, |node| (tk(A::ImportDescMemoryType::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("ImportDescMemoryType::memory_type", trees, K::IMPORT_DESC_MEMORY_TYPE, n, |node| (nd(A::ImportDescMemoryType::cast(node.clone()).unwrap().memory_type()), child(node, &[K::MEMORY_TYPE])))?;
    acc("ImportDescTableType::l_paren_token", trees, K::IMPORT_DESC_TABLE_TYPE, n, |node| (tk(A::ImportDescTableType::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ImportDescTableType::r_paren_token", trees, K::IMPORT_DESC_TABLE_TYPE, n, |node| (tk(A::ImportDescTableType::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ImportDescTableType::keyword", trees, K::IMPORT_DESC_TABLE_TYPE, n, |node| (tk(A::ImportDescTableType::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ImportDescTableType::ident_token", trees, K::IMPORT_DESC_TABLE_TYPE, n, |node| (tk(A::ImportDescTableType::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("ImportDescTableType::table_type", trees, K::IMPORT_DESC_TABLE_TYPE, n, |node| (nd(A::ImportDescTableType::cast(node.clone()).unwrap().table_type()), child(node, &[K::TABLE_TYPE])))?;
    acc("ImportDescTypeUse::l_paren_token", trees, K::IMPORT_DESC_TYPE_USE, n, |node| (tk(A::ImportDescTypeUse::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ImportDescTypeUse::r_paren_token", trees, K::IMPORT_DESC_TYPE_USE, n, |node| (tk(A::ImportDescTypeUse::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ImportDescTypeUse::keyword", trees, K::IMPORT_DESC_TYPE_USE, n, |node| (tk(A::ImportDescTypeUse::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ImportDescTypeUse::ident_token", trees, K::IMPORT_DESC_TYPE_USE, n, |node| (tk(A::ImportDescTypeUse::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("ImportDescTypeUse::type_use", trees, K::IMPORT_DESC_TYPE_USE, n, |node| (nd(A::ImportDescTypeUse::cast(node.clone()).unwrap().type_use()), child(node, &[K::TYPE_USE])))?;
    acc("Index::ident_token", trees, K::INDEX, n, |node| (tk(A::Index::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("Index::unsigned_int_token", trees, K::INDEX, n, |node| (tk(A::Index::cast(node.clone()).unwrap().unsigned_int_token()), first(node, K::UNSIGNED_INT)))?;
    acc("Local::l_paren_token", trees, K::LOCAL, n, |node| (tk(A::Local::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("Local::r_paren_token", trees, K::LOCAL, n, |node| (tk(A::Local::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("Local::keyword", trees, K::LOCAL, n, |node| (tk(A::Local::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("Local::ident_token", trees, K::LOCAL, n, |node| (tk(A::Local::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("Local::val_types", trees, K::LOCAL, n, |node| (nds(A::Local::cast(node.clone()).unwrap().val_types()), children(node, &[K::VAL_TYPE])))?;
    acc("MemUse::l_paren_token", trees, K::MEM_USE, n, |node| (tk(A::MemUse::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("MemUse::r_paren_token", trees, K::MEM_USE, n, |node| (tk(A::MemUse::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("MemUse::keyword", trees, K::MEM_USE, n, |node| (tk(A::MemUse::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("MemUse::index", trees, K::MEM_USE, n, |node| (nd(A::MemUse::cast(node.clone()).unwrap().index()), child(node, &[K::INDEX])))?;
    acc("Module::l_paren_token", trees, K::MODULE, n, |node| (tk(A::Module::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("Module::r_paren_token", trees, K::MODULE, n, |node| (tk(A::Module::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("Module::keyword", trees, K::MODULE, n, |node| (tk(A::Module::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("Module::ident_token", trees, K::MODULE, n, |node| (tk(A::Module::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("Module::module_fields", trees, K::MODULE, n, |node| (nds(A::Module::cast(node.clone()).unwrap().module_fields()), children(node, &[K::MODULE_FIELD_DATA, K::MODULE_FIELD_ELEM, K::MODULE_FIELD_EXPORT, K::MODULE_FIELD_FUNC, K::MODULE_FIELD_GLOBAL, K::MODULE_FIELD_IMPORT, K::MODULE_FIELD_MEMORY, K::MODULE_FIELD_START, K::MODULE_FIELD_TABLE, K::MODULE_FIELD_TYPE])))?;
    acc("ModuleFieldData::l_paren_token", trees, K::MODULE_FIELD_DATA, n, |node| (tk(A::ModuleFieldData::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ModuleFieldData::r_paren_token", trees, K::MODULE_FIELD_DATA, n, |node| (tk(A::ModuleFieldData::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ModuleFieldData::keyword", trees, K::MODULE_FIELD_DATA, n, |node| (tk(A::ModuleFieldData::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ModuleFieldData::ident_token", trees, K::MODULE_FIELD_DATA, n, |node| (tk(A::ModuleFieldData::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("ModuleFieldData::mem_use", trees, K::MODULE_FIELD_DATA, n, |node| (nd(A::ModuleFieldData::cast(node.clone()).unwrap().mem_use()), child(node, &[K::MEM_USE])))?;
    acc("ModuleFieldData::offset", trees, K::MODULE_FIELD_DATA, n, |node| (nd(A::ModuleFieldData::cast(node.clone()).unwrap().offset()), child(node, &[K::OFFSET])))?;
    acc("ModuleFieldData::string_tokens", trees, K::MODULE_FIELD_DATA, n, |node| (A::ModuleFieldData::cast(node.clone()).unwrap().string_tokens().map(|t| pos(&t)).collect::<Vec<_>>(), all(node, K::STRING)))?;
    acc("ModuleFieldElem::l_paren_token", trees, K::MODULE_FIELD_ELEM, n, |node| (tk(A::ModuleFieldElem::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ModuleFieldElem::r_paren_token", trees, K::MODULE_FIELD_ELEM, n, |node| (tk(A::ModuleFieldElem::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ModuleFieldElem::keyword", trees, K::MODULE_FIELD_ELEM, n, |node| (tk(A::ModuleFieldElem::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ModuleFieldElem::ident_token", trees, K::MODULE_FIELD_ELEM, n, |node| (tk(A::ModuleFieldElem::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("ModuleFieldElem::table_use", trees, K::MODULE_FIELD_ELEM, n, |node| (nd(A::ModuleFieldElem::cast(node.clone()).unwrap().table_use()), child(node, &[K::TABLE_USE])))?;
    acc("ModuleFieldElem::offset", trees, K::MODULE_FIELD_ELEM, n, |node| (nd(A::ModuleFieldElem::cast(node.clone()).unwrap().offset()), child(node, &[K::OFFSET])))?;
    acc("ModuleFieldElem::elem_list", trees, K::MODULE_FIELD_ELEM, n, |node| (nd(A::ModuleFieldElem::cast(node.clone()).unwrap().elem_list()), child(node, &[K::ELEM_LIST])))?;
    acc("ModuleFieldElem::declare_keyword", trees, K::MODULE_FIELD_ELEM, n, |node| (tk(A::ModuleFieldElem::cast(node.clone()).unwrap().declare_keyword()), word(node, "declare")))?;
    acc("ModuleFieldExport::l_paren_token", trees, K::MODULE_FIELD_EXPORT, n, |node| (tk(A::ModuleFieldExport::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ModuleFieldExport::r_paren_token", trees, K::MODULE_FIELD_EXPORT, n, |node| (tk(A::ModuleFieldExport::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ModuleFieldExport::keyword", trees, K::MODULE_FIELD_EXPORT, n, |node| (tk(A::ModuleFieldExport::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ModuleFieldExport::name", trees, K::MODULE_FIELD_EXPORT, n, |node| (nd(A::ModuleFieldExport::cast(node.clone()).unwrap().name()), child(node, &[K::NAME])))?;
    acc("ModuleFieldExport::export_desc", trees, K::MODULE_FIELD_EXPORT, n, |node| (nd(A::ModuleFieldExport::cast(node.clone()).unwrap().export_desc()), child(node, &[K::EXPORT_DESC_FUNC, K::EXPORT_DESC_GLOBAL, K::EXPORT_DESC_MEMORY, K::EXPORT_DESC_TABLE])))?;
    acc("ModuleFieldFunc::l_paren_token", trees, K::MODULE_FIELD_FUNC, n, |node| (tk(A::ModuleFieldFunc::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ModuleFieldFunc::r_paren_token", trees, K::MODULE_FIELD_FUNC, n, |node| (tk(A::ModuleFieldFunc::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ModuleFieldFunc::keyword", trees, K::MODULE_FIELD_FUNC, n, |node| (tk(A::ModuleFieldFunc::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ModuleFieldFunc::ident_token", trees, K::MODULE_FIELD_FUNC, n, |node| (tk(A::ModuleFieldFunc::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("ModuleFieldFunc::import", trees, K::MODULE_FIELD_FUNC, n, |node| (nd(A::ModuleFieldFunc::cast(node.clone()).unwrap().import()), child(node, &[K::IMPORT])))?;
    acc("ModuleFieldFunc::exports", trees, K::MODULE_FIELD_FUNC, n, |node| (nds(A::ModuleFieldFunc::cast(node.clone()).unwrap().exports()), children(node, &[K::EXPORT])))?;
    acc("ModuleFieldFunc::type_use", trees, K::MODULE_FIELD_FUNC, n, |node| (nd(A::ModuleFieldFunc::cast(node.clone()).unwrap().type_use()), child(node, &[K::TYPE_USE])))?;
    acc("ModuleFieldFunc::locals", trees, K::MODULE_FIELD_FUNC, n, |node| (nds(A::ModuleFieldFunc::cast(node.clone()).unwrap().locals()), children(node, &[K::LOCAL])))?;
    acc("ModuleFieldFunc::instrs", trees, K::MODULE_FIELD_FUNC, n, |node| (nds(A::ModuleFieldFunc::cast(node.clone()).unwrap().instrs()), children(node, &[K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF, K::PLAIN_INSTR])))?;
    acc("ModuleFieldGlobal::l_paren_token", trees, K::MODULE_FIELD_GLOBAL, n, |node| (tk(A::ModuleFieldGlobal::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ModuleFieldGlobal::r_paren_token", trees, K::MODULE_FIELD_GLOBAL, n, |node| (tk(A::ModuleFieldGlobal::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ModuleFieldGlobal::keyword", trees, K::MODULE_FIELD_GLOBAL, n, |node| (tk(A::ModuleFieldGlobal::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ModuleFieldGlobal::ident_token", trees, K::MODULE_FIELD_GLOBAL, n, |node| (tk(A::ModuleFieldGlobal::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("ModuleFieldGlobal::import", trees, K::MODULE_FIELD_GLOBAL, n, |node| (nd(A::ModuleFieldGlobal::cast(node.clone()).unwrap().import()), child(node, &[K::IMPORT])))?;
    acc("ModuleFieldGlobal::export", trees, K::MODULE_FIELD_GLOBAL, n, |node| (nd(A::ModuleFieldGlobal::cast(node.clone()).unwrap().export()), child(node, &[K::EXPORT])))?;
    acc("ModuleFieldGlobal::global_type", trees, K::MODULE_FIELD_GLOBAL, n, |node| (nd(A::ModuleFieldGlobal::cast(node.clone()).unwrap().global_type()), child(node, &[K::GLOBAL_TYPE])))?;
    acc("ModuleFieldGlobal::instrs", trees, K::MODULE_FIELD_GLOBAL, n, |node| (nds(A::ModuleFieldGlobal::cast(node.clone()).unwrap().instrs()), children(node, &[K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF, K::PLAIN_INSTR])))?;
    acc("ModuleFieldImport::l_paren_token", trees, K::MODULE_FIELD_IMPORT, n, |node| (tk(A::ModuleFieldImport::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ModuleFieldImport::r_paren_token", trees, K::MODULE_FIELD_IMPORT, n, |node| (tk(A::ModuleFieldImport::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ModuleFieldImport::keyword", trees, K::MODULE_FIELD_IMPORT, n, |node| (tk(A::ModuleFieldImport::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ModuleFieldImport::module_name", trees, K::MODULE_FIELD_IMPORT, n, |node| (nd(A::ModuleFieldImport::cast(node.clone()).unwrap().module_name()), child(node, &[K::MODULE_NAME])))?;
    acc("ModuleFieldImport::name", trees, K::MODULE_FIELD_IMPORT, n, |node| (nd(A::ModuleFieldImport::cast(node.clone()).unwrap().name()), child(node, &[K::NAME])))?;
    acc("ModuleFieldImport::import_desc", trees, K::MODULE_FIELD_IMPORT, n, |node| (nd(A::ModuleFieldImport::cast(node.clone()).unwrap().import_desc()), child(node, &[K::IMPORT_DESC_TYPE_USE, K::IMPORT_DESC_TABLE_TYPE, K::IMPORT_DESC_MEMORY_TYPE, K::IMPORT_DESC_GLOBAL_TYPE])))?;
    acc("ModuleFieldMemory::l_paren_token", trees, K::MODULE_FIELD_MEMORY, n, |node| (tk(A::ModuleFieldMemory::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ModuleFieldMemory::r_paren_token", trees, K::MODULE_FIELD_MEMORY, n, |node| (tk(A::ModuleFieldMemory::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ModuleFieldMemory::keyword", trees, K::MODULE_FIELD_MEMORY, n, |node| (tk(A::ModuleFieldMemory::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ModuleFieldMemory::ident_token", trees, K::MODULE_FIELD_MEMORY, n, |node| (tk(A::ModuleFieldMemory::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("ModuleFieldMemory::import", trees, K::MODULE_FIELD_MEMORY, n, |node| (nd(A::ModuleFieldMemory::cast(node.clone()).unwrap().import()), child(node, &[K::IMPORT])))?;
    acc("ModuleFieldMemory::export", trees, K::MODULE_FIELD_MEMORY, n, |node| (nd(A::ModuleFieldMemory::cast(node.clone()).unwrap().export()), child(node, &[K::EXPORT])))?;
    acc("ModuleFieldMemory::memory_type", trees, K::MODULE_FIELD_MEMORY, n, |node| (nd(A::ModuleFieldMemory::cast(node.clone()).unwrap().memory_type()), child(node, &[K::MEMORY_TYPE])))?;
    acc("ModuleFieldMemory::data", trees, K::MODULE_FIELD_MEMORY, n, |node| (nd(A::ModuleFieldMemory::cast(node.clone()).unwrap().data()), child(node, &[K::DATA])))?;
    acc("ModuleFieldStart::l_paren_token", trees, K::MODULE_FIELD_START, n, |node| (tk(A::ModuleFieldStart::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ModuleFieldStart::r_paren_token", trees, K::MODULE_FIELD_START, n, |node| (tk(A::ModuleFieldStart::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ModuleFieldStart::keyword", trees, K::MODULE_FIELD_START, n, |node| (tk(A::ModuleFieldStart::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ModuleFieldStart::index", trees, K::MODULE_FIELD_START, n, |node| (nd(A::ModuleFieldStart::cast(node.clone()).unwrap().index()), child(node, &[K::INDEX])))?;
    acc("ModuleFieldTable::l_paren_token", trees, K::MODULE_FIELD_TABLE, n, |node| (tk(A::ModuleFieldTable::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ModuleFieldTable::r_paren_token", trees, K::MODULE_FIELD_TABLE, n, |node| (tk(A::ModuleFieldTable::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ModuleFieldTable::keyword", trees, K::MODULE_FIELD_TABLE, n, |node| (tk(A::ModuleFieldTable::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ModuleFieldTable::ident_token", trees, K::MODULE_FIELD_TABLE, n, |node| (tk(A::ModuleFieldTable::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("ModuleFieldTable::import", trees, K::MODULE_FIELD_TABLE, n, |node| (nd(A::ModuleFieldTable::cast(node.clone()).unwrap().import()), child(node, &[K::IMPORT])))?;
    acc("ModuleFieldTable::export", trees, K::MODULE_FIELD_TABLE, n, |node| (nd(A::ModuleFieldTable::cast(node.clone()).unwrap().export()), child(node, &[K::EXPORT])))?;
    acc("ModuleFieldTable::table_type", trees, K::MODULE_FIELD_TABLE, n, |node| (nd(A::ModuleFieldTable::cast(node.clone()).unwrap().table_type()), child(node, &[K::TABLE_TYPE])))?;
    acc("ModuleFieldTable::ref_type", trees, K::MODULE_FIELD_TABLE, n, |node| (tk(A::ModuleFieldTable::cast(node.clone()).unwrap().ref_type()), first(node, K::REF_TYPE)))?;
    acc("ModuleFieldTable::elem", trees, K::MODULE_FIELD_TABLE, n, |node| (nd(A::ModuleFieldTable::cast(node.clone()).unwrap().elem()), child(node, &[K::ELEM])))?;
    acc("ModuleFieldType::l_paren_token", trees, K::MODULE_FIELD_TYPE, n, |node| (tk(A::ModuleFieldType::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("ModuleFieldType::r_paren_token", trees, K::MODULE_FIELD_TYPE, n, |node| (tk(A::ModuleFieldType::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("ModuleFieldType::keyword", trees, K::MODULE_FIELD_TYPE, n, |node| (tk(A::ModuleFieldType::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("ModuleFieldType::ident_token", trees, K::MODULE_FIELD_TYPE, n, |node| (tk(A::ModuleFieldType::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("ModuleFieldType::func_type", trees, K::MODULE_FIELD_TYPE, n, |node| (nd(A::ModuleFieldType::cast(node.clone()).unwrap().func_type()), child(node, &[K::FUNC_TYPE])))?;
    acc("ModuleName::string_token", trees, K::MODULE_NAME, n, |node| (tk(A::ModuleName::cast(node.clone()).unwrap().string_token()), first(node, K::STRING)))?;
    acc("Name::string_token", trees, K::NAME, n, |node| (tk(A::Name::cast(node.clone()).unwrap().string_token()), first(node, K::STRING)))?;
    acc("Offset::l_paren_token", trees, K::OFFSET, n, |node| (tk(A::Offset::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("Offset::r_paren_token", trees, K::OFFSET, n, |node| (tk(A::Offset::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("Offset::keyword", trees, K::OFFSET, n, |node| (tk(A::Offset::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("Offset::instrs", trees, K::OFFSET, n, |node| (nds(A::Offset::cast(node.clone()).unwrap().instrs()), children(node, &[K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF, K::PLAIN_INSTR])))?;
    acc("TableUse::l_paren_token", trees, K::TABLE_USE, n, |node| (tk(A::TableUse::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("TableUse::r_paren_token", trees, K::TABLE_USE, n, |node| (tk(A::TableUse::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("TableUse::keyword", trees, K::TABLE_USE, n, |node| (tk(A::TableUse::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("TableUse::index", trees, K::TABLE_USE, n, |node| (nd(A::TableUse::cast(node.clone()).unwrap().index()), child(node, &[K::INDEX])))?;
    acc("TypeUse::l_paren_token", trees, K::TYPE_USE, n, |node| (tk(A::TypeUse::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("TypeUse::r_paren_token", trees, K::TYPE_USE, n, |node| (tk(A::TypeUse::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("TypeUse::keyword", trees, K::TYPE_USE, n, |node| (tk(A::TypeUse::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("TypeUse::index", trees, K::TYPE_USE, n, |node| (nd(A::TypeUse::cast(node.clone()).unwrap().index()), child(node, &[K::INDEX])))?;
    acc("TypeUse::params", trees, K::TYPE_USE, n, |node| (nds(A::TypeUse::cast(node.clone()).unwrap().params()), children(node, &[K::PARAM])))?;
    acc("TypeUse::results", trees, K::TYPE_USE, n, |node| (nds(A::TypeUse::cast(node.clone()).unwrap().results()), children(node, &[K::RESULT])))?;
    acc("BlockBlock::l_paren_token", trees, K::BLOCK_BLOCK, n, |node| (tk(A::BlockBlock::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("BlockBlock::r_paren_token", trees, K::BLOCK_BLOCK, n, |node| (tk(A::BlockBlock::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("BlockBlock::keyword", trees, K::BLOCK_BLOCK, n, |node| (tk(A::BlockBlock::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("BlockBlock::block_type", trees, K::BLOCK_BLOCK, n, |node| (nd(A::BlockBlock::cast(node.clone()).unwrap().block_type()), child(node, &[K::BLOCK_TYPE])))?;
    acc("BlockBlock::instrs", trees, K::BLOCK_BLOCK, n, |node| (nds(A::BlockBlock::cast(node.clone()).unwrap().instrs()), children(node, &[K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF, K::PLAIN_INSTR])))?;
    acc("BlockBlock::end_keyword", trees, K::BLOCK_BLOCK, n, |node| (tk(A::BlockBlock::cast(node.clone()).unwrap().end_keyword()), word(node, "end")))?;
    acc("BlockBlock::ident_token", trees, K::BLOCK_BLOCK, n, |node| (tk(A::BlockBlock::cast(node.clone()).unwrap().ident_token()), label(node, false, &A::BlockBlock::cast(node.clone()).unwrap().ident_token().iter().map(pos).collect::<Vec<_>>())))?;
    acc("BlockBlock::end_ident_token", trees, K::BLOCK_BLOCK, n, |node| (tk(A::BlockBlock::cast(node.clone()).unwrap().end_ident_token()), label(node, true, &A::BlockBlock::cast(node.clone()).unwrap().end_ident_token().iter().map(pos).collect::<Vec<_>>())))?;
    acc("BlockIf::l_paren_token", trees, K::BLOCK_IF, n, |node| (tk(A::BlockIf::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("BlockIf::r_paren_token", trees, K::BLOCK_IF, n, |node| (tk(A::BlockIf::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("BlockIf::keyword", trees, K::BLOCK_IF, n, |node| (tk(A::BlockIf::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("BlockIf::block_type", trees, K::BLOCK_IF, n, |node| (nd(A::BlockIf::cast(node.clone()).unwrap().block_type()), child(node, &[K::BLOCK_TYPE])))?;
    acc("BlockIf::instrs", trees, K::BLOCK_IF, n, |node| (nds(A::BlockIf::cast(node.clone()).unwrap().instrs()), children(node, &[K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF, K::PLAIN_INSTR])))?;
    acc("BlockIf::end_keyword", trees, K::BLOCK_IF, n, |node| (tk(A::BlockIf::cast(node.clone()).unwrap().end_keyword()), word(node, "end")))?;
    acc("BlockIf::ident_token", trees, K::BLOCK_IF, n, |node| (tk(A::BlockIf::cast(node.clone()).unwrap().ident_token()), label(node, false, &A::BlockIf::cast(node.clone()).unwrap().ident_token().iter().map(pos).collect::<Vec<_>>())))?;
    acc("BlockIf::end_ident_token", trees, K::BLOCK_IF, n, |node| (tk(A::BlockIf::cast(node.clone()).unwrap().end_ident_token()), label(node, true, &A::BlockIf::cast(node.clone()).unwrap().end_ident_token().iter().map(pos).collect::<Vec<_>>())))?;
    acc("BlockIf::then_block", trees, K::BLOCK_IF, n, |node| (nd(A::BlockIf::cast(node.clone()).unwrap().then_block()), child(node, &[K::BLOCK_IF_THEN])))?;
    acc("BlockIf::else_block", trees, K::BLOCK_IF, n, |node| (nd(A::BlockIf::cast(node.clone()).unwrap().else_block()), child(node, &[K::BLOCK_IF_ELSE])))?;
    acc("BlockLoop::l_paren_token", trees, K::BLOCK_LOOP, n, |node| (tk(A::BlockLoop::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("BlockLoop::r_paren_token", trees, K::BLOCK_LOOP, n, |node| (tk(A::BlockLoop::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("BlockLoop::keyword", trees, K::BLOCK_LOOP, n, |node| (tk(A::BlockLoop::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("BlockLoop::block_type", trees, K::BLOCK_LOOP, n, |node| (nd(A::BlockLoop::cast(node.clone()).unwrap().block_type()), child(node, &[K::BLOCK_TYPE])))?;
    acc("BlockLoop::instrs", trees, K::BLOCK_LOOP, n, |node| (nds(A::BlockLoop::cast(node.clone()).unwrap().instrs()), children(node, &[K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF, K::PLAIN_INSTR])))?;
    acc("BlockLoop::end_keyword", trees, K::BLOCK_LOOP, n, |node| (tk(A::BlockLoop::cast(node.clone()).unwrap().end_keyword()), word(node, "end")))?;
    acc("BlockLoop::ident_token", trees, K::BLOCK_LOOP, n, |node| (tk(A::BlockLoop::cast(node.clone()).unwrap().ident_token()), label(node, false, &A::BlockLoop::cast(node.clone()).unwrap().ident_token().iter().map(pos).collect::<Vec<_>>())))?;
    acc("BlockLoop::end_ident_token", trees, K::BLOCK_LOOP, n, |node| (tk(A::BlockLoop::cast(node.clone()).unwrap().end_ident_token()), label(node, true, &A::BlockLoop::cast(node.clone()).unwrap().end_ident_token().iter().map(pos).collect::<Vec<_>>())))?;
    acc("BlockIfElse::l_paren_token", trees, K::BLOCK_IF_ELSE, n, |node| (tk(A::BlockIfElse::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("BlockIfElse::r_paren_token", trees, K::BLOCK_IF_ELSE, n, |node| (tk(A::BlockIfElse::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("BlockIfElse::keyword", trees, K::BLOCK_IF_ELSE, n, |node| (tk(A::BlockIfElse::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("BlockIfElse::instrs", trees, K::BLOCK_IF_ELSE, n, |node| (nds(A::BlockIfElse::cast(node.clone()).unwrap().instrs()), children(node, &[K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF, K::PLAIN_INSTR])))?;
    acc("BlockIfThen::l_paren_token", trees, K::BLOCK_IF_THEN, n, |node| (tk(A::BlockIfThen::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("BlockIfThen::r_paren_token", trees, K::BLOCK_IF_THEN, n, |node| (tk(A::BlockIfThen::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("BlockIfThen::keyword", trees, K::BLOCK_IF_THEN, n, |node| (tk(A::BlockIfThen::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("BlockIfThen::instrs", trees, K::BLOCK_IF_THEN, n, |node| (nds(A::BlockIfThen::cast(node.clone()).unwrap().instrs()), children(node, &[K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF, K::PLAIN_INSTR])))?;
    acc("BlockType::result", trees, K::BLOCK_TYPE, n, |node| (nd(A::BlockType::cast(node.clone()).unwrap().result()), child(node, &[K::RESULT])))?;
    acc("BlockType::type_use", trees, K::BLOCK_TYPE, n, |node| (nd(A::BlockType::cast(node.clone()).unwrap().type_use()), child(node, &[K::TYPE_USE])))?;
    acc("Operand::float", trees, K::OPERAND, n, |node| (tk(A::Operand::cast(node.clone()).unwrap().float()), first(node, K::FLOAT)))?;
    acc("Operand::int", trees, K::OPERAND, n, |node| (tk(A::Operand::cast(node.clone()).unwrap().int()), first(node, K::INT)))?;
    acc("Operand::string", trees, K::OPERAND, n, |node| (tk(A::Operand::cast(node.clone()).unwrap().string()), first(node, K::STRING)))?;
    acc("Operand::ident", trees, K::OPERAND, n, |node| (tk(A::Operand::cast(node.clone()).unwrap().ident()), first(node, K::IDENT)))?;
    acc("Operand::mem_arg", trees, K::OPERAND, n, |node| (tk(A::Operand::cast(node.clone()).unwrap().mem_arg()), first(node, K::MEM_ARG)))?;
    acc("Operand::heap_type", trees, K::OPERAND, n, |node| (tk(A::Operand::cast(node.clone()).unwrap().heap_type()), first(node, K::HEAP_TYPE)))?;
    acc("Operand::type_use", trees, K::OPERAND, n, |node| (nd(A::Operand::cast(node.clone()).unwrap().type_use()), child(node, &[K::TYPE_USE])))?;
    acc("Operand::instr", trees, K::OPERAND, n, |node| (nd(A::Operand::cast(node.clone()).unwrap().instr()), child(node, &[K::BLOCK_BLOCK, K::BLOCK_LOOP, K::BLOCK_IF, K::PLAIN_INSTR])))?;
    acc("PlainInstr::l_paren_token", trees, K::PLAIN_INSTR, n, |node| (tk(A::PlainInstr::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("PlainInstr::r_paren_token", trees, K::PLAIN_INSTR, n, |node| (tk(A::PlainInstr::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("PlainInstr::instr_name", trees, K::PLAIN_INSTR, n, |node| (tk(A::PlainInstr::cast(node.clone()).unwrap().instr_name()), first(node, K::INSTR_NAME)))?;
    acc("PlainInstr::operands", trees, K::PLAIN_INSTR, n, |node| (nds(A::PlainInstr::cast(node.clone()).unwrap().operands()), children(node, &[K::OPERAND])))?;
    acc("FuncType::l_paren_token", trees, K::FUNC_TYPE, n, |node| (tk(A::FuncType::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("FuncType::r_paren_token", trees, K::FUNC_TYPE, n, |node| (tk(A::FuncType::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("FuncType::keyword", trees, K::FUNC_TYPE, n, |node| (tk(A::FuncType::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("FuncType::params", trees, K::FUNC_TYPE, n, |node| (nds(A::FuncType::cast(node.clone()).unwrap().params()), children(node, &[K::PARAM])))?;
    acc("FuncType::results", trees, K::FUNC_TYPE, n, |node| (nds(A::FuncType::cast(node.clone()).unwrap().results()), children(node, &[K::RESULT])))?;
    acc("GlobalType::l_paren_token", trees, K::GLOBAL_TYPE, n, |node| (tk(A::GlobalType::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("GlobalType::r_paren_token", trees, K::GLOBAL_TYPE, n, |node| (tk(A::GlobalType::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("GlobalType::mut_keyword", trees, K::GLOBAL_TYPE, n, |node| (tk(A::GlobalType::cast(node.clone()).unwrap().mut_keyword()), first(node, K::KEYWORD)))?;
    acc("GlobalType::val_type", trees, K::GLOBAL_TYPE, n, |node| (nd(A::GlobalType::cast(node.clone()).unwrap().val_type()), child(node, &[K::VAL_TYPE])))?;
    acc("Limits::min", trees, K::LIMITS, n, |node| (tk(A::Limits::cast(node.clone()).unwrap().min()), first(node, K::UNSIGNED_INT)))?;
    acc("Limits::share", trees, K::LIMITS, n, |node| (tk(A::Limits::cast(node.clone()).unwrap().share()), first(node, K::SHARE)))?;
    acc("Limits::max", trees, K::LIMITS, n, |node| (tk(A::Limits::cast(node.clone()).unwrap().max()), all(node, K::UNSIGNED_INT).into_iter().nth(1).into_iter().collect()))?;
    acc("MemoryType::limits", trees, K::MEMORY_TYPE, n, |node| (nd(A::MemoryType::cast(node.clone()).unwrap().limits()), child(node, &[K::LIMITS])))?;
    acc("Param::l_paren_token", trees, K::PARAM, n, |node| (tk(A::Param::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("Param::r_paren_token", trees, K::PARAM, n, |node| (tk(A::Param::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("Param::keyword", trees, K::PARAM, n, |node| (tk(A::Param::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("Param::ident_token", trees, K::PARAM, n, |node| (tk(A::Param::cast(node.clone()).unwrap().ident_token()), first(node, K::IDENT)))?;
    acc("Param::val_types", trees, K::PARAM, n, |node| (nds(A::Param::cast(node.clone()).unwrap().val_types()), children(node, &[K::VAL_TYPE])))?;
    acc("Result::l_paren_token", trees, K::RESULT, n, |node| (tk(A::Result::cast(node.clone()).unwrap().l_paren_token()), first(node, K::L_PAREN)))?;
    acc("Result::r_paren_token", trees, K::RESULT, n, |node| (tk(A::Result::cast(node.clone()).unwrap().r_paren_token()), first(node, K::R_PAREN)))?;
    acc("Result::keyword", trees, K::RESULT, n, |node| (tk(A::Result::cast(node.clone()).unwrap().keyword()), first(node, K::KEYWORD)))?;
    acc("Result::val_types", trees, K::RESULT, n, |node| (nds(A::Result::cast(node.clone()).unwrap().val_types()), children(node, &[K::VAL_TYPE])))?;
    acc("TableType::limits", trees, K::TABLE_TYPE, n, |node| (nd(A::TableType::cast(node.clone()).unwrap().limits()), child(node, &[K::LIMITS])))?;
    acc("TableType::ref_type", trees, K::TABLE_TYPE, n, |node| (tk(A::TableType::cast(node.clone()).unwrap().ref_type()), first(node, K::REF_TYPE)))?;
    acc("ValType::num_type", trees, K::VAL_TYPE, n, |node| (tk(A::ValType::cast(node.clone()).unwrap().num_type()), first(node, K::NUM_TYPE)))?;
    acc("ValType::vec_type", trees, K::VAL_TYPE, n, |node| (tk(A::ValType::cast(node.clone()).unwrap().vec_type()), first(node, K::VEC_TYPE)))?;
    acc("ValType::ref_type", trees, K::VAL_TYPE, n, |node| (tk(A::ValType::cast(node.clone()).unwrap().ref_type()), first(node, K::REF_TYPE)))?;
    acc("Root::modules", trees, K::ROOT, n, |node| (nds(A::Root::cast(node.clone()).unwrap().modules()), children(node, &[K::MODULE])))?;
    Ok(())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let many: usize = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(200);
    let mut r = R(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let trees: Vec<C> = (0..many).map(|_| build(&mut r)).chain([vec![]]).collect();
    let mut n = 0;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(&trees, &mut n)));
    let fails: Vec<String> = match res {
        Ok(Ok(())) => vec![],
        Ok(Err(m)) => vec![m],
        Err(_) => vec!["panicked".into()],
    };
    let f: Vec<_> = fails.iter().map(|m| serde_json::json!({"input": serde_json::Value::Null, "message": m})).collect();
    println!("{}", serde_json::json!({"id": "P04", "evaluations": n, "skipped": 0, "facts": n, "distinct": n, "samples": [], "failures": f}));
    std::process::exit(i32::from(!fails.is_empty()));
}
