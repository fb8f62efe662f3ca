//! Oracles of typing, formatting and the remaining editor features.
use crate::checks::{model, parse, rng_of, V, O};
use crate::gen::Rng;
use crate::model::{self, Decl, Instr, Model, Sig, DK, R, TK};
use crate::svc::{canon, dispatch, new_service, Doc, LineMap, LEGEND};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;
use wat_syntax::{SyntaxKind, SyntaxNode};

pub struct Spec {
    pub op: String,
    pub params: Vec<String>,
    pub results: Vec<String>,
    pub imm: usize,
}
pub fn spec() -> &'static BTreeMap<String, Spec> {
    static S: OnceLock<BTreeMap<String, Spec>> = OnceLock::new();
    S.get_or_init(|| {
        let v: Value = serde_json::from_str(include_str!("../../spec/instrs.json")).unwrap();
        let strs = |v: &Value| v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
        v.as_object()
            .unwrap()
            .iter()
            .map(|(k, v)| {
                (
                    k.clone(),
                    Spec {
                        op: v["op"].as_str().unwrap().into(),
                        params: strs(&v["params"]),
                        results: strs(&v["results"]),
                        imm: v["imm"].as_u64().unwrap() as usize,
                    },
                )
            })
            .collect()
    })
}

fn pass(n: usize) -> O {
    Ok(if n == 0 { V::Skip } else { V::Pass(n) })
}

// ------------------------------------------------------------------ P11

/// Independent of the document: every instruction of the specification.
pub fn p11_all() -> O {
    let mut n = 0;
    for (name, s) in spec() {
        let src = format!("(module (func {name}))");
        let doc = Doc::new(&src);
        let v = doc.at("hover", 14);
        let text = v["contents"]["value"].as_str().unwrap_or("");
        let want = format!("Binary Opcode: {}", s.op);
        n += 1;
        if !text.ends_with(&want) && !(name == "select" && text.ends_with("0x1B")) {
            return Err(format!("hover of {name} shows {text:?}, expected {want:?}"));
        }
        // types, through the type checker: exactly the specified operands are accepted
        let imm = imm_text(name, s);
        let tys = ["i32", "i64", "f32", "f64", "v128", "funcref"];
        let konst = |t: &str| match t {
            "funcref" => "(table.get 0 (i32.const 0))".to_string(),
            "*" => "(i32.const 0)".into(),
            "v128" => "(v128.const 0)".into(),
            t => format!("({t}.const 0)"),
        };
        let typed = |t: &str| if t == "funcref" { "(ref.func 0)".to_string() } else { konst(t) };
        let folded = |args: &[String]| format!("(module (func) (func ({name} {imm} {})))", args.join(" "));
        let good: Vec<String> = s.params.iter().map(|t| typed(t)).collect();
        let issues = |src: &str| -> Vec<String> {
            Doc::new(src)
                .diags()
                .iter()
                .filter_map(|d| d["message"].as_str().map(str::to_string))
                .filter(|m| is_type_msg(m))
                .collect()
        };
        let g = issues(&folded(&good));
        n += 1;
        if !g.is_empty() {
            return Err(format!("{} gets {g:?}", folded(&good)));
        }
        let plain = format!("(module (func) (func {} {name} {imm}))", good.iter().map(|g| g[1..g.len() - 1].to_string()).collect::<Vec<_>>().join(" "));
        let g = issues(&plain);
        if !g.is_empty() {
            return Err(format!("{plain} gets {g:?}"));
        }
        for i in 0..=s.params.len() {
            // one operand too many or too few
            let mut more = good.clone();
            if i == s.params.len() {
                more.push("(i32.const 0)".into());
            } else {
                more.remove(i);
            }
            n += 1;
            let src = folded(&more);
            if !issues(&src).iter().any(|m| m.contains("operand")) {
                return Err(format!("no diagnostic for the number of operands in {src}"));
            }
            if i < s.params.len() && s.params[i] != "*" {
                for t in tys {
                    if t == s.params[i] {
                        continue;
                    }
                    let mut bad = good.clone();
                    bad[i] = typed(t);
                    let src = folded(&bad);
                    let want = format!("expected type `{}`, found `{t}`", s.params[i]);
                    n += 1;
                    if issues(&src) != [want.clone()] {
                        return Err(format!("{src} gets {:?}, expected {want:?}", issues(&src)));
                    }
                }
            }
        }
        // results, observed through a function that takes another type
        if !matches!(name.as_str(), "local.get" | "global.get") {
            let src = |t: &str| {
                format!("(module (func $f (param {t})) (func (call $f ({name} {imm} {}))))", good.join(" "))
            };
            if s.results.len() == 1 {
                for t in tys {
                    let got = issues(&src(t));
                    let want = if s.results[0] == "*" || s.results[0] == t {
                        vec![]
                    } else {
                        vec![format!("expected type `{t}`, found `{}`", s.results[0])]
                    };
                    n += 1;
                    if got != want {
                        return Err(format!("{} gets {got:?}, expected {want:?}", src(t)));
                    }
                }
            } else {
                n += 1;
                let got = issues(&src("i32"));
                if got != ["expected 2 operands, found 1"] {
                    return Err(format!("{} gets {got:?}", src("i32")));
                }
            }
        }
    }
    Ok(V::Pass(n))
}

fn imm_text(name: &str, s: &Spec) -> String {
    match s.imm {
        0 => String::new(),
        1 if name == "select" => String::new(),
        1 if name == "ref.null" => "func".into(),
        1 if name.contains(".load") || name.contains(".store") => "offset=0".into(),
        2 if name.contains("_lane") => "offset=0 0".into(),
        n => vec!["0"; n].join(" "),
    }
}

fn is_type_msg(m: &str) -> bool {
    m.starts_with("expected type `")
        || m == "expected instr"
        || m.strip_prefix("expected ")
            .is_some_and(|m| m.starts_with(|c: char| c.is_ascii_digit()) && m.contains("operand"))
}

// ------------------------------------------------------------------ P12

type Ty = Option<String>;

fn use_at<'a>(m: &'a Model, i: &Instr) -> Option<&'a model::Use> {
    let t = m.toks[*i.imm.first()?].r;
    m.uses.iter().find(|u| u.r == t && u.instr == Some(i.node))
}
fn results(m: &Model, i: &Instr) -> Option<Vec<Ty>> {
    match i.name.as_str() {
        _ if i.block => None,
        "call" => {
            let d = *m.defs(use_at(m, i)?).first()?;
            Some(m.func_sig(&m.decls[d])?.results.into_iter().map(Some).collect())
        }
        "local.get" | "global.get" => {
            let d = *m.defs(use_at(m, i)?).first()?;
            Some(vec![Some(m.decls[d].ty.clone()?)])
        }
        n => Some(spec().get(n)?.results.iter().map(|t| (t != "*").then(|| t.clone())).collect()),
    }
}
fn params(m: &Model, i: &Instr) -> Option<Vec<Ty>> {
    match i.name.as_str() {
        _ if i.block => None,
        "call" => {
            let d = *m.defs(use_at(m, i)?).first()?;
            Some(m.func_sig(&m.decls[d])?.params.into_iter().map(|p| Some(p.1)).collect())
        }
        n => Some(spec().get(n)?.params.iter().map(|t| (t != "*").then(|| t.clone())).collect()),
    }
}
fn count_msg(e: usize, f: usize) -> String {
    format!("expected {e} {}, found {f}", if e == 1 { "operand" } else { "operands" })
}

pub fn p12(src: &str) -> O {
    let Some(m) = model(src).filter(|m| !m.odd) else { return Ok(V::Skip) };
    let mut want: Vec<(R, String)> = vec![];
    let mut free: BTreeSet<R> = BTreeSet::new();
    let mut n = 0;
    for i in &m.instrs {
        if i.block {
            return Ok(V::Skip);
        }
        let (Some(ps), Some(_)) = (params(&m, i), results(&m, i)) else { return Ok(V::Skip) };
        let imm = i.operands.iter().filter(|o| o.1.is_none()).count();
        if i.operands.iter().take(imm).any(|o| o.1.is_some()) {
            return Ok(V::Skip);
        }
        let want_imm = if i.name == "call" { 1 } else { spec()[&i.name].imm };
        let mem = i.name.contains(".load") || i.name.contains(".store");
        let ok = match i.name.as_str() {
            "select" => imm == 0,
            n if n.starts_with("table.") => imm <= want_imm,
            _ if mem && i.name.contains("_lane") => imm >= 1 && imm <= want_imm + 1,
            _ if mem => imm <= want_imm + 1,
            _ => imm == want_imm,
        };
        if !ok {
            return Ok(V::Skip);
        }
        if !i.folded {
            continue;
        }
        n += 1;
        let mut recv: Vec<(Ty, R)> = vec![];
        for (r, k) in &i.operands {
            if let Some(k) = k {
                let Some(rs) = results(&m, &m.instrs[*k]) else { return Ok(V::Skip) };
                recv.extend(rs.into_iter().map(|t| (t, *r)));
            }
        }
        if recv.len() != ps.len() {
            want.push((i.node, count_msg(ps.len() + imm, recv.len() + imm)));
            free.extend(recv.iter().map(|r| r.1));
        } else {
            for (p, (t, r)) in ps.iter().zip(&recv) {
                if let (Some(p), Some(t)) = (p, t) {
                    if p != t {
                        want.push((*r, format!("expected type `{p}`, found `{t}`")));
                    }
                }
            }
        }
    }
    for (_, body) in &m.bodies {
        if body.iter().all(|i| m.instrs[*i].folded) {
            continue;
        }
        let mut stack: Vec<(Ty, R)> = vec![];
        for &k in body {
            let i = &m.instrs[k];
            let ps = params(&m, i).unwrap();
            n += 1;
            if !i.folded {
                if stack.len() < ps.len() {
                    want.push((i.node, count_msg(ps.len(), stack.len())));
                    free.extend(stack.iter().map(|r| r.1));
                    stack.clear();
                } else {
                    let at = stack.len() - ps.len();
                    for (p, (t, r)) in ps.iter().zip(stack.drain(at..)) {
                        if let (Some(p), Some(t)) = (p, &t) {
                            if p != t {
                                want.push((r, format!("expected type `{p}`, found `{t}`")));
                            }
                        }
                    }
                }
            }
            stack.extend(results(&m, i).unwrap().into_iter().map(|t| (t, i.node)));
        }
    }
    let doc = Doc::new(src);
    let mut got = vec![];
    for d in doc.diags() {
        let msg = d["message"].as_str().unwrap_or("").to_string();
        if is_type_msg(&msg) {
            got.push((doc.map.range(&d["range"]).ok_or("diagnostic outside the document")?, msg));
        }
    }
    // where the number of operands is wrong, the types of these operands aren't specified
    let keep = |d: &(R, String)| !(free.contains(&d.0) && d.1.starts_with("expected type"));
    got.retain(keep);
    want.retain(keep);
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("type diagnostics are {got:?}, expected {want:?}"));
    }
    pass(n)
}

// ------------------------------------------------------------------ formatter

fn options(r: &mut Rng) -> wat_formatter::config::FormatOptions {
    use wat_formatter::config::*;
    FormatOptions {
        layout: LayoutOptions {
            print_width: *r.pick(&[1usize, 8, 20, 40, 80, 120, 1000]),
            use_tabs: r.chance(25),
            indent_width: *r.pick(&[0usize, 1, 2, 4, 8]),
            line_break: if r.chance(25) { LineBreak::Crlf } else { LineBreak::Lf },
        },
        language: LanguageOptions {
            format_comments: r.chance(40),
            ignore_comment_directive: "fmt-ignore".into(),
        },
    }
}

/// Tokens and comments of a text; comments up to what comment formatting may change.
fn fingerprint(s: &str, fc: bool) -> Option<Vec<String>> {
    Some(
        model::lex(s)?
            .iter()
            .filter(|t| t.k != TK::Ws)
            .map(|t| {
                let x = s[t.r.0..t.r.1].replace("\r\n", "\n");
                match t.k {
                    TK::LineC | TK::BlockC if fc => x.chars().filter(|c| !matches!(c, ' ' | '\t')).collect(),
                    TK::LineC => x.trim_end().to_string(),
                    TK::BlockC => x.lines().map(str::trim).collect::<Vec<_>>().join("\n"),
                    _ => x,
                }
            })
            .collect(),
    )
}

fn format(root: SyntaxNode, o: &wat_formatter::config::FormatOptions) -> String {
    use rowan::ast::AstNode;
    wat_formatter::format(&wat_syntax::ast::Root::cast(root).expect("harness: root"), o)
}

fn closed(src: &str) -> Option<SyntaxNode> {
    model::lex(src)?;
    let (root, e) = parse(src);
    (e.is_empty() && !root.descendants_with_tokens().any(|e| e.kind() == SyntaxKind::ERROR)).then_some(root)
}

fn diff(a: &[String], b: &[String]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("token {i}: {:?} became {:?}", a.get(i..(i + 3).min(a.len())), b.get(i..(i + 3).min(b.len())))
}

/// A function with an inline export in front of an inline import: a known finding, they are swapped.
fn export_before_import(root: &SyntaxNode) -> bool {
    root.descendants().filter(|n| n.kind() == SyntaxKind::MODULE_FIELD_FUNC).any(|f| {
        let mut export = false;
        f.children().any(|c| {
            export |= c.kind() == SyntaxKind::EXPORT;
            export && c.kind() == SyntaxKind::IMPORT
        })
    })
}

pub fn p13(src: &str) -> O {
    let Some(root) = closed(src) else { return Ok(V::Skip) };
    if export_before_import(&root) {
        return Ok(V::Skip);
    }
    let mut r = rng_of(src);
    for _ in 0..3 {
        let o = options(&mut r);
        let out = format(root.clone(), &o);
        let a = fingerprint(src, o.language.format_comments).unwrap();
        let Some(b) = fingerprint(&out, o.language.format_comments) else {
            return Err(format!("with {o:?} the output isn't well-formed: {out:?}"));
        };
        if a != b {
            return Err(format!("with {o:?}: {} in {out:?}", diff(&a, &b)));
        }
        let e = parse(&out).1;
        if !e.is_empty() {
            return Err(format!("with {o:?} the output {out:?} has syntax errors {e:?}"));
        }
    }
    // the service's answer is the replacement of the whole text
    let doc = Doc::new(src);
    let v = dispatch(&doc.svc, "formatting", json!({"textDocument": doc.td(), "options": {"tabSize": 2, "insertSpaces": true}}));
    let out = doc.apply(src, &v)?;
    let (a, b) = (fingerprint(src, true).unwrap(), fingerprint(&out, true));
    if b.as_ref() != Some(&a) {
        return Err(format!("textDocument/formatting: {}", diff(&a, &b.unwrap_or_default())));
    }
    pass(a.len())
}

pub fn p14(src: &str) -> O {
    let Some(root) = closed(src) else { return Ok(V::Skip) };
    let mut r = rng_of(src);
    for _ in 0..3 {
        let o = options(&mut r);
        let one = format(root.clone(), &o);
        if fingerprint(&one, false).is_none() {
            return Ok(V::Skip);
        }
        let (root2, e) = parse(&one);
        if !e.is_empty() {
            return Ok(V::Skip);
        }
        let two = format(root2, &o);
        if one != two {
            return Err(format!("with {o:?}: {one:?} is formatted as {two:?}"));
        }
    }
    pass(3)
}

pub fn p15(src: &str) -> O {
    let Some(root) = closed(src) else { return Ok(V::Skip) };
    if export_before_import(&root) {
        return Ok(V::Skip);
    }
    let mut r = rng_of(src);
    let doc = Doc::new(src);
    let bounds: Vec<usize> = src.char_indices().map(|c| c.0).chain([src.len()]).collect();
    let nodes: BTreeSet<R> =
        root.descendants().map(|n| (n.text_range().start().into(), n.text_range().end().into())).collect();
    let toks: Vec<R> = model::lex(src).unwrap().iter().map(|t| t.r).collect();
    let a = fingerprint(src, true).unwrap();
    let mut n = 0;
    for _ in 0..6 {
        let (s, e) = if r.chance(40) && !toks.is_empty() {
            let (x, y) = (*r.pick(&toks), *r.pick(&toks));
            (x.0.min(y.0), x.1.max(y.1))
        } else {
            let (x, y) = (*r.pick(&bounds), *r.pick(&bounds));
            (x.min(y), x.max(y))
        };
        let v = dispatch(
            &doc.svc,
            "rangeFormatting",
            json!({"textDocument": doc.td(), "range": doc.map.jrange((s, e)),
                "options": {"tabSize": r.below(9), "insertSpaces": r.chance(70)}}),
        );
        if v.is_null() {
            continue;
        }
        let es = v.as_array().cloned().unwrap_or_default();
        if es.len() != 1 {
            return Err(format!("range {s}..{e}: {} edits", es.len()));
        }
        let er = doc.map.range(&es[0]["range"]).ok_or("edit outside the document")?;
        if !nodes.contains(&er) {
            return Err(format!("range {s}..{e}: edit of {er:?}, which isn't the range of a node"));
        }
        if er.0 > s || er.1 < e {
            return Err(format!("range {s}..{e}: edit of {er:?} doesn't cover it"));
        }
        let out = doc.apply(src, &v)?;
        match fingerprint(&out, true) {
            Some(b) if a == b => n += 1,
            b => return Err(format!("range {s}..{e} gives {out:?}: {}", diff(&a, &b.unwrap_or_default()))),
        }
        if !parse(&out).1.is_empty() {
            return Err(format!("range {s}..{e} gives {out:?}, which has syntax errors"));
        }
    }
    pass(n)
}

// ------------------------------------------------------------------ P16

fn lidx(s: &str) -> u32 {
    LEGEND.iter().position(|l| *l == s).unwrap() as u32
}

fn expected_tokens(m: &Model, map: &LineMap) -> Vec<(u32, u32, u32, u32, R)> {
    let names: BTreeSet<R> = m.instrs.iter().filter(|i| !i.block).map(|i| i.name_r).collect();
    let mut imm: BTreeMap<R, &Instr> = BTreeMap::new();
    for i in &m.instrs {
        for t in &i.imm {
            imm.insert(m.toks[*t].r, i);
        }
    }
    let in_param = |r: R| m.groups.iter().any(|g| g.kw == "param" && g.r.0 <= r.0 && r.1 <= g.r.1);
    let mut out = vec![];
    for t in &m.toks {
        let text = m.text(t.r);
        let u = m.uses.iter().find(|u| u.r == t.r);
        let d = m.decls.iter().find(|d| d.name_r == Some(t.r));
        let callish = imm.get(&t.r).is_some_and(|i| matches!(i.name.as_str(), "call" | "return_call" | "ref.func"))
            || u.is_some_and(|u| u.k == DK::Func && u.instr.is_none());
        let to_param = |u: &model::Use| u.k == DK::Local && m.defs(u).first().is_some_and(|d| m.decls[*d].k == DK::Param);
        let k = match t.k {
            TK::L | TK::R | TK::Ws => continue,
            TK::LineC | TK::BlockC => "comment",
            TK::Str => "string",
            TK::Id if callish => "function",
            TK::Id if d.is_some_and(|d| d.k == DK::Func && !d.import_field) => "function",
            TK::Id if in_param(t.r) || u.is_some_and(to_param) => "parameter",
            TK::Id => "variable",
            TK::Num => {
                let int = model::is_uint(text.strip_prefix(['+', '-']).unwrap_or(text));
                if !int {
                    "number"
                } else if callish {
                    "function"
                } else if imm.get(&t.r).is_some_and(|i| i.name.starts_with("local.")) {
                    if u.is_some_and(to_param) {
                        "parameter"
                    } else {
                        "variable"
                    }
                } else {
                    "number"
                }
            }
            TK::Word if names.contains(&t.r) => "operator",
            TK::Word if imm.contains_key(&t.r) => continue,
            TK::Word => match text {
                "i32" | "i64" | "f32" | "f64" | "v128" | "funcref" | "externref" => "type",
                "shared" | "unshared" => continue,
                _ => "keyword",
            },
        };
        let (l, c) = map.pos(t.r.0);
        out.push((l, c, text.encode_utf16().count() as u32, lidx(k), t.r));
    }
    out
}

fn decode(v: &Value) -> Vec<[u32; 4]> {
    let d: Vec<u32> = v["data"].as_array().cloned().unwrap_or_default().iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect();
    d.chunks(5).map(|c| [c[0], c[1], c[2], c[3]]).collect()
}
fn absolute(d: &[[u32; 4]], base: (u32, u32)) -> Vec<(u32, u32, u32, u32)> {
    let (mut l, mut c) = base;
    d.iter()
        .map(|t| {
            if t[0] > 0 {
                l = l.wrapping_add(t[0]);
                c = 0;
            }
            c = c.wrapping_add(t[1]);
            (l, c, t[2], t[3])
        })
        .collect()
}

/// Lexical expectation that holds for malformed documents, too.
pub fn p16(src: &str) -> O {
    let doc = Doc::new(src);
    let got = absolute(&decode(&doc.doc("semanticTokensFull")), (0, 0));
    let mut prev: Option<R> = None;
    for t in &got {
        let Some(s) = doc.map.offset(t.0, t.1) else {
            return Err(format!("token {t:?} starts outside the document"));
        };
        let mut e = s;
        let mut n = 0;
        while n < t.2 as usize {
            let Some(c) = src[e..].chars().next() else { return Err(format!("token {t:?} ends outside the document")) };
            n += c.len_utf16();
            e += c.len_utf8();
        }
        if prev.is_some_and(|p| p.1 > s || p.0 == s) {
            return Err(format!("token {t:?} overlaps the previous one"));
        }
        prev = Some((s, e));
    }
    let Some(m) = model(src) else { return pass(got.len()) };
    let want = expected_tokens(&m, &doc.map);
    let w: Vec<_> = want.iter().map(|t| (t.0, t.1, t.2, t.3)).collect();
    if got != w {
        let i = got.iter().zip(&w).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "semantic token {i} (line, column, length, type) is {:?}, expected {:?} for {:?}",
            got.get(i),
            w.get(i),
            want.get(i).map(|t| m.text(t.4))
        ));
    }
    let mut r = rng_of(src);
    let bounds: Vec<usize> = src.char_indices().map(|c| c.0).chain([src.len()]).collect();
    for _ in 0..4 {
        let (x, y) = (*r.pick(&bounds), *r.pick(&bounds));
        let (s, e) = (x.min(y), x.max(y));
        let d = decode(&doc.range_req("semanticTokensRange", (s, e)));
        let w: Vec<_> = want.iter().filter(|t| t.4 .1 > s && t.4 .0 < e).map(|t| (t.0, t.1, t.2, t.3)).collect();
        // known finding: the first token may be encoded relative to the first token of the range
        let first = m.toks.iter().find(|t| t.r.1 > s && t.r.0 < e).map(|t| doc.map.pos(t.r.0));
        let alt = first.map(|f| {
            let mut d = d.clone();
            if let Some(t) = d.first_mut() {
                if t[0] == f.0 {
                    t[1] = t[1].wrapping_add(f.1);
                }
            }
            absolute(&d, (0, 0))
        });
        if absolute(&d, (0, 0)) != w && alt.as_ref() != Some(&w) {
            return Err(format!("semantic tokens of range {s}..{e} are {:?}, expected {w:?}", absolute(&d, (0, 0))));
        }
    }
    pass(got.len())
}

// ------------------------------------------------------------------ P17

pub fn p17(src: &str) -> O {
    let doc = Doc::new(src);
    let mut r = rng_of(src);
    let bounds: Vec<usize> = src.char_indices().map(|c| c.0).chain([src.len()]).collect();
    let (root, _) = parse(src);
    let mut n = 0;
    let extents: BTreeSet<R> = root
        .descendants_with_tokens()
        .map(|e| (e.text_range().start().into(), e.text_range().end().into()))
        .collect();
    for _ in 0..6 {
        let o = *r.pick(&bounds);
        let v = dispatch(&doc.svc, "selectionRange", json!({"textDocument": doc.td(), "positions": [doc.map.jpos(o)]}));
        let Some(top) = v.get(0) else { continue };
        let mut cur = top.clone();
        let mut prev: Option<R> = None;
        let mut depth = 0;
        while !cur.is_null() {
            let x = doc.map.range(&cur["range"]).ok_or("selection range outside the document")?;
            if x.0 > o || x.1 < o {
                return Err(format!("selection range {x:?} at {o} doesn't contain the position"));
            }
            if let Some(p) = prev {
                if x.0 > p.0 || x.1 < p.1 {
                    return Err(format!("selection range {x:?} doesn't contain its child {p:?}"));
                }
            }
            if !extents.contains(&x) {
                return Err(format!("selection range {x:?} is no construct"));
            }
            prev = Some(x);
            depth += 1;
            cur = cur["parent"].clone();
        }
        let tok = root
            .descendants_with_tokens()
            .filter_map(|e| e.into_token())
            .find(|t| usize::from(t.text_range().start()) < o && o < usize::from(t.text_range().end()));
        if let Some(t) = tok {
            let chain = t.parent_ancestors().count() + 1;
            let r0 = doc.map.range(&top["range"]).unwrap();
            if r0 != (t.text_range().start().into(), t.text_range().end().into()) || depth != chain {
                return Err(format!("selection chain at {o} starts with {r0:?} and has {depth} links, expected {:?} and {chain}", t.text_range()));
            }
        }
        if prev != Some((0, src.len())) {
            return Err(format!("selection chain at {o} ends with {prev:?}"));
        }
        n += 1;
    }
    let fold = doc.doc("foldingRange");
    let mut got = vec![];
    for f in fold.as_array().cloned().unwrap_or_default() {
        let p = |l: &str, c: &str| {
            doc.map.offset(f[l].as_u64()? as u32, f[c].as_u64()? as u32)
        };
        let (Some(s), Some(e)) = (p("startLine", "startCharacter"), p("endLine", "endCharacter")) else {
            return Err(format!("folding range outside the document: {f}"));
        };
        if f["startLine"].as_u64() >= f["endLine"].as_u64() {
            return Err(format!("folding range on one line: {f}"));
        }
        got.push((s, e));
        n += 1;
    }
    got.sort();
    if let Some(m) = model(src) {
        let mut want: Vec<R> =
            m.constructs.iter().copied().filter(|r| doc.map.pos(r.0).0 != doc.map.pos(r.1).0).collect();
        want.sort();
        if got != want {
            let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).collect();
            let miss: Vec<_> = want.iter().filter(|g| !got.contains(g)).collect();
            return Err(format!("folding ranges: unexpected {extra:?}, missing {miss:?} (got {}, want {})", got.len(), want.len()));
        }
    }
    // document symbols
    let v = doc.doc("documentSymbol");
    let mut syms = vec![];
    symbols(&doc, &v, None, &mut syms)?;
    if let Some(m) = model(src) {
        let shown = |d: &&Decl| !matches!(d.k, DK::Param | DK::Block);
        let mut want: Vec<(R, R, String, Option<R>)> = vec![];
        for (mi, mr) in m.modules.iter().enumerate() {
            let ds: Vec<&Decl> = m.decls.iter().filter(|d| d.m == mi).filter(shown).collect();
            if ds.is_empty() {
                syms.retain(|s| (s.0, s.2.as_str()) != (*mr, "module")); // not a declaration: may be shown or not
                continue;
            }
            want.push((*mr, *mr, "module".into(), None));
            for d in ds {
                let parent = if d.k == DK::Local { d.f.map(|f| m.decls[f].node) } else { Some(*mr) };
                want.push((d.node, d.name_r.unwrap_or(d.node), d.name.clone().unwrap_or(d.num.to_string()), parent));
            }
        }
        want.sort();
        syms.sort();
        if syms != want {
            let extra: Vec<_> = syms.iter().filter(|g| !want.contains(g)).collect();
            let miss: Vec<_> = want.iter().filter(|g| !syms.contains(g)).collect();
            return Err(format!("document symbols (range, selection, name, parent): unexpected {extra:?}, missing {miss:?}"));
        }
        n += want.len();
    }
    pass(n)
}

fn symbols(doc: &Doc, v: &Value, parent: Option<R>, out: &mut Vec<(R, R, String, Option<R>)>) -> Result<(), String> {
    for s in v.as_array().cloned().unwrap_or_default() {
        let r = doc.map.range(&s["range"]).ok_or("symbol outside the document")?;
        let sel = doc.map.range(&s["selectionRange"]).ok_or("symbol outside the document")?;
        if sel.0 < r.0 || sel.1 > r.1 {
            return Err(format!("selection range {sel:?} isn't inside {r:?}"));
        }
        if parent.is_some_and(|p| r.0 < p.0 || r.1 > p.1) {
            return Err(format!("symbol {r:?} isn't inside its parent {parent:?}"));
        }
        out.push((r, sel, s["name"].as_str().unwrap_or("").to_string(), parent));
        symbols(doc, &s["children"], Some(r), out)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ P20, P26

/// Every request at a number of positions and ranges; answers in canonical order.
pub fn battery(doc: &Doc, src: &str, picks: &[usize]) -> Vec<(String, Value)> {
    let mut out = vec![];
    let mut add = |k: String, v: Value| out.push((k, canon(&v)));
    for m in ["diagnostic", "documentSymbol", "foldingRange", "semanticTokensFull"] {
        add(m.into(), doc.doc(m));
    }
    add("formatting".into(), dispatch(&doc.svc, "formatting", json!({"textDocument": doc.td(), "options": {"tabSize": 2, "insertSpaces": true}})));
    for &o in picks {
        for m in ["prepareCallHierarchy", "completion", "definition", "typeDefinition", "declaration", "hover", "prepareRename"] {
            let v = doc.at(m, o);
            if m == "prepareCallHierarchy" {
                for i in v.as_array().cloned().unwrap_or_default() {
                    add(format!("in@{o}"), dispatch(&doc.svc, "incomingCalls", json!({ "item": i })));
                    add(format!("out@{o}"), dispatch(&doc.svc, "outgoingCalls", json!({ "item": i })));
                }
            }
            add(format!("{m}@{o}"), v);
        }
        for d in [true, false] {
            add(format!("references({d})@{o}"), doc.refs(o, d));
        }
        add(format!("rename@{o}"), doc.rename(o, "$x"));
        add(format!("selectionRange@{o}"), dispatch(&doc.svc, "selectionRange", json!({"textDocument": doc.td(), "positions": [doc.map.jpos(o)]})));
    }
    for w in picks.windows(2) {
        let r = (w[0].min(w[1]), w[0].max(w[1]));
        for m in ["codeAction", "inlayHint", "semanticTokensRange", "rangeFormatting"] {
            add(format!("{m}@{r:?}"), doc.range_req(m, r));
        }
    }
    let _ = src;
    out
}

fn picks(r: &mut Rng, src: &str, n: usize) -> Vec<usize> {
    let b: Vec<usize> = src.char_indices().map(|c| c.0).chain([src.len()]).collect();
    (0..n).map(|_| *r.pick(&b)).collect()
}

pub const SEP: char = '\u{1e}';

/// A history: texts separated by SEP. Document i % 3 gets text i, with queries in between;
/// at the end every document answers as a fresh service does.
pub fn p20(hist: &str) -> O {
    let texts: Vec<&str> = hist.split(SEP).collect();
    if texts.len() < 2 {
        return Ok(V::Skip);
    }
    let mut r = rng_of(hist);
    let mut svc = new_service();
    let uris = ["untitled:a", "untitled:b", "file:///dir/c.wat"];
    // one document all the time, or several
    let one = r.chance(60);
    let often = if r.chance(60) { 100 } else { 60 };
    let mut cur: BTreeMap<&str, &str> = BTreeMap::new();
    let mut n = 0;
    for (i, t) in texts.iter().enumerate() {
        let uri = uris[if one { 0 } else if i < 2 { i } else { r.below(3) }];
        svc.commit(serde_json::from_value(json!(uri)).unwrap(), t.to_string());
        cur.insert(uri, t);
        if r.chance(often) {
            // intermediate queries on any of the documents
            let (u, t) = *r.pick(&cur.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>());
            let p = if t.len() < 300 { picks(&mut r, t, 6) } else { picks(&mut r, t, 2) };
            let d = Doc::on(svc, u, t);
            battery(&d, t, &p);
            svc = d.svc;
        }
    }
    let mut docs: Vec<(&str, &str)> = cur.into_iter().collect();
    if r.chance(50) {
        docs.reverse();
    }
    for (u, t) in docs {
        let p = if t.len() < 300 { picks(&mut r, t, 10) } else { picks(&mut r, t, 4) };
        let d = Doc::on(svc, u, t);
        let a = battery(&d, t, &p);
        let again = battery(&d, t, &p);
        svc = d.svc;
        let mut fresh = new_service();
        fresh.commit(serde_json::from_value(json!(u)).unwrap(), t.to_string());
        let b = battery(&Doc::on(fresh, u, t), t, &p);
        for ((k, x), (y, z)) in a.iter().zip(b.iter().map(|b| &b.1).zip(again.iter().map(|b| &b.1))) {
            n += 1;
            if x != y {
                return Err(format!("{k} on {t:?} answers {x} after this history, {y} in a fresh service"));
            }
            if x != z {
                return Err(format!("{k} on {t:?} answers {x} the first time and {z} the second"));
            }
        }
        if a.len() != b.len() {
            return Err(format!("different numbers of call hierarchy items on {t:?}"));
        }
    }
    pass(n)
}

pub fn p26(src: &str) -> O {
    let doc = Doc::new(src);
    let mut r = rng_of(src);
    let mut p = picks(&mut r, src, 5);
    p.push(src.len());
    let n = battery(&doc, src, &p).len();
    // every character boundary converts there and back: the text the service thinks of at a
    // position is the text at that position
    let (root, _) = parse(src);
    for o in picks(&mut r, src, 6) {
        let v = dispatch(&doc.svc, "selectionRange", json!({"textDocument": doc.td(), "positions": [doc.map.jpos(o)]}));
        let tok = root
            .descendants_with_tokens()
            .filter_map(|e| e.into_token())
            .find(|t| usize::from(t.text_range().start()) < o && o < usize::from(t.text_range().end()));
        if let Some(t) = tok {
            let w = doc.map.jrange((t.text_range().start().into(), t.text_range().end().into()));
            if v[0]["range"] != w {
                return Err(format!("position {} resolves to {}, expected the token {:?} at {w}", doc.map.jpos(o), v[0]["range"], t.text()));
            }
        }
    }
    // positions past the end of a line or of the document are clamped
    for _ in 0..2 {
        let l = r.below(doc.map.lines());
        let (s, e) = doc.map.line_range(l);
        let text = &src[s..e];
        let end = s + text.trim_end_matches('\n').len();
        let (line, col) = doc.map.pos(end);
        for over in [col + 1 + r.below(5) as u32, u32::MAX] {
            clamp(&doc, (line, over), &[(line, col), doc.map.pos(s + text.trim_end_matches(['\r', '\n']).len()), doc.map.pos(e)])?;
        }
    }
    // lines past the end of the document: any answer will do
    for line in [doc.map.lines() as u32, doc.map.lines() as u32 + 7, u32::MAX] {
        for m in ["hover", "completion", "selectionRange", "definition", "references", "prepareRename"] {
            let pos = json!({"line": line, "character": r.below(4)});
            dispatch(&doc.svc, m, json!({"textDocument": doc.td(), "position": pos, "positions": [pos], "context": {"includeDeclaration": true, "triggerKind": 1}}));
        }
    }
    dispatch(&doc.svc, "formatting", json!({"textDocument": doc.td(), "options": {"tabSize": r.below(3), "insertSpaces": r.chance(50)}}));
    // ranges in any order of ends, also outside of the document
    for m in ["codeAction", "inlayHint", "semanticTokensRange", "rangeFormatting"] {
        let pos = |r: &mut Rng| json!({"line": r.below(doc.map.lines() + 3), "character": r.below(40)});
        let rg = json!({"start": pos(&mut r), "end": pos(&mut r)});
        dispatch(&doc.svc, m, json!({"textDocument": doc.td(), "range": rg, "context": {"diagnostics": []}, "options": {"tabSize": 2, "insertSpaces": true}}));
    }
    pass(n)
}

/// What the service does at `p` is what it does at (one of) the clamped positions.
fn clamp(doc: &Doc, p: (u32, u32), to: &[(u32, u32)]) -> Result<(), String> {
    for m in ["hover", "completion", "selectionRange", "definition"] {
        let ask = |p: (u32, u32)| {
            let pos = json!({"line": p.0, "character": p.1});
            dispatch(&doc.svc, m, json!({"textDocument": doc.td(), "position": pos, "positions": [pos]}))
        };
        let a = ask(p);
        if !to.iter().any(|t| ask(*t) == a) {
            return Err(format!("{m} at {p:?} answers {a}, at the clamped position {}", ask(to[0])));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P21

fn actions(doc: &Doc, r: R, only: Option<&str>) -> Vec<Value> {
    let mut ctx = json!({"diagnostics": []});
    if let Some(k) = only {
        ctx["only"] = json!([k]);
    }
    let v = dispatch(&doc.svc, "codeAction", json!({"textDocument": doc.td(), "range": doc.map.jrange(r), "context": ctx}));
    v.as_array().cloned().unwrap_or_default()
}
fn applied(doc: &Doc, src: &str, a: &Value) -> Result<(String, Vec<R>), String> {
    let ch = a["edit"]["changes"].as_object().ok_or("no changes")?;
    if ch.len() != 1 || !ch.contains_key(&doc.uri) {
        return Err("changes of another document".into());
    }
    let e = &ch[&doc.uri];
    let mut rs: Vec<R> = vec![];
    for e in e.as_array().cloned().unwrap_or_default() {
        rs.push(doc.map.range(&e["range"]).ok_or("edit outside the document")?);
    }
    Ok((doc.apply(src, e)?, rs))
}

pub fn p21(src: &str) -> O {
    let doc = Doc::new(src);
    let mut r = rng_of(src);
    let (root, errs) = parse(src);
    let mut n = 0;
    if let Some(m) = model(src) {
        for g in &m.groups {
            let k = g.r.0 + 1 + src[g.r.0 + 1..].find(g.kw.as_str()).unwrap();
            let inner = if src[g.r.0..k].len() == 1 { (k, k + 3) } else { (g.r.0 + 1, g.r.0 + 1) };
            for at in [inner, (g.r.1 - 1, g.r.1 - 1)] {
                let acts = actions(&doc, at, None);
                let split: Vec<_> = acts.iter().filter(|a| a["title"].as_str().unwrap_or("").starts_with("Split")).collect();
                let want = g.types.len() > 1 && !g.named;
                // at the very end of the group the position may belong to what follows it
                if at.0 != inner.0 && split.is_empty() {
                    continue;
                }
                n += 1;
                if split.len() != want as usize {
                    return Err(format!("{} split actions offered in {:?}", split.len(), m.text(g.r)));
                }
                if !want {
                    continue;
                }
                if !split[0]["title"].as_str().unwrap().contains(match g.kw.as_str() { "param" => "param", "result" => "result", _ => "local" }) {
                    return Err(format!("{:?} is titled {}", m.text(g.r), split[0]["title"]));
                }
                let (out, rs) = applied(&doc, src, split[0])?;
                if rs != [g.r] {
                    return Err(format!("split edits {rs:?} instead of {:?}", g.r));
                }
                let end = out.len() - (src.len() - g.r.1);
                let repl = &out[g.r.0..end];
                let want_text: Vec<String> =
                    g.types.iter().flat_map(|t| ["(".to_string(), g.kw.clone(), t.clone(), ")".into()]).collect();
                let got: Vec<String> = model::significant(repl).unwrap_or_default().iter().map(|s| s.to_string()).collect();
                if got != want_text {
                    return Err(format!("splitting {:?} gives {repl:?}", m.text(g.r)));
                }
                if !parse(&out).1.is_empty() {
                    return Err(format!("splitting gives {out:?}, which has syntax errors"));
                }
            }
        }
        // joins: runs of groups of one owner
        for (i, g) in m.groups.iter().enumerate() {
            for j in i + 1..m.groups.len() {
                let h = &m.groups[j];
                if h.owner != g.owner || h.kw != "param" || g.kw != "param" {
                    break;
                }
                let sel = (g.r.0, h.r.1);
                let acts = actions(&doc, sel, None);
                let joins: Vec<_> = acts.iter().filter(|a| a["title"].as_str().unwrap_or("").starts_with("Join")).collect();
                // the first run of unnamed groups in the selection
                let run: Vec<&model::Group> = m.groups[i..=j]
                    .iter()
                    .skip_while(|g| g.named)
                    .take_while(|g| !g.named)
                    .collect();
                let types: Vec<String> = run.iter().flat_map(|g| g.types.clone()).collect();
                n += 1;
                if joins.len() != (types.len() > 1) as usize {
                    return Err(format!("{} join actions offered in {:?}", joins.len(), m.text(sel)));
                }
                if types.len() < 2 {
                    continue;
                }
                let (out, rs) = applied(&doc, src, joins[0])?;
                let ext = (run[0].r.0, run[run.len() - 1].r.1);
                if rs != [ext] {
                    return Err(format!("join edits {rs:?} instead of {ext:?}"));
                }
                let repl = &out[ext.0..out.len() - (src.len() - ext.1)];
                let mut want: Vec<String> = vec!["(".into(), "param".into()];
                want.extend(types);
                want.push(")".into());
                let got: Vec<String> = model::significant(repl).unwrap_or_default().iter().map(|s| s.to_string()).collect();
                if got != want {
                    return Err(format!("joining {:?} gives {repl:?}", m.text(sel)));
                }
                if !parse(&out).1.is_empty() {
                    return Err(format!("joining gives {out:?}, which has syntax errors"));
                }
            }
        }
    }
    // any action, anywhere: edits apply, kinds are filtered, no new syntax errors, and memory
    // argument fixes only delete whitespace
    let bounds: Vec<usize> = src.char_indices().map(|c| c.0).chain([src.len()]).collect();
    let instrs: Vec<R> = root
        .descendants()
        .filter(|n| n.kind() == SyntaxKind::PLAIN_INSTR)
        .map(|n| (n.text_range().start().into(), n.text_range().end().into()))
        .collect();
    let mut sels: Vec<R> = (0..4).map(|_| (*r.pick(&bounds), *r.pick(&bounds))).map(|(a, b)| (a.min(b), a.max(b))).collect();
    sels.extend(instrs.iter().copied().take(6));
    for sel in sels {
        let all = actions(&doc, sel, None);
        let fix = actions(&doc, sel, Some("quickfix"));
        let rew = actions(&doc, sel, Some("refactor.rewrite"));
        if all.len() != fix.len() + rew.len()
            || fix.iter().any(|a| a["kind"] != "quickfix")
            || rew.iter().any(|a| a["kind"] != "refactor.rewrite")
            || !fix.iter().chain(&rew).all(|a| all.contains(a))
        {
            return Err(format!("actions at {sel:?} by kind don't add up: {} quick fixes, {} rewrites, {} in all", fix.len(), rew.len(), all.len()));
        }
        for a in &all {
            let (out, rs) = applied(&doc, src, a)?;
            n += 1;
            if a["kind"] == "quickfix" {
                for x in &rs {
                    if !src[x.0..x.1].chars().all(char::is_whitespace) || x.0 == x.1 {
                        return Err(format!("memory argument fix removes {:?}", &src[x.0..x.1]));
                    }
                    let b = src[..x.0].ends_with('=') || src[x.1..].starts_with('=');
                    if !b {
                        return Err(format!("memory argument fix removes whitespace at {x:?}, which isn't next to `=`"));
                    }
                }
                let squeeze = |s: &str| s.split_whitespace().collect::<String>();
                if squeeze(&out) != squeeze(src) {
                    return Err(format!("memory argument fix gives {out:?}"));
                }
            }
            let e2 = parse(&out).1;
            if e2.len() > errs.len() {
                return Err(format!("{} gives {out:?} with more syntax errors: {e2:?}", a["title"]));
            }
        }
    }
    pass(n)
}

/// `offset = 4`-like text: the fix is offered exactly there and yields a valid argument.
pub fn p21_mem() -> O {
    let mut n = 0;
    for kw in ["offset", "align"] {
        for (a, b) in [(" ", ""), ("", " "), (" ", " "), ("\n", "\t"), ("", "")] {
            for num in ["0", "4", "65536", "0x10"] {
                for (pre, post) in [("(i32.load ", " (i32.const 0))"), ("(i32.store align=1 ", " (i32.const 0) (i32.const 0))")] {
                    let src = format!("(module (memory 1) (func {pre}{kw}{a}={b}{num}{post}))");
                    if num == "0x10" && b.is_empty() {
                        continue;
                    }
                    let doc = Doc::new(&src);
                    let at = src.find(kw).unwrap();
                    let at = if pre.contains("align=1") { src.rfind(kw).unwrap() } else { at };
                    let acts = actions(&doc, (at, at), None);
                    let want = !(a.is_empty() && b.is_empty());
                    n += 1;
                    if acts.len() != want as usize {
                        return Err(format!("{} actions offered in {src:?}", acts.len()));
                    }
                    if want {
                        let (out, _) = applied(&doc, &src, &acts[0])?;
                        let good = format!("(module (memory 1) (func {pre}{kw}={num}{post}))");
                        if out != good {
                            return Err(format!("fixing {src:?} gives {out:?}"));
                        }
                    }
                }
            }
        }
    }
    Ok(V::Pass(n))
}

// ------------------------------------------------------------------ P22

fn requirement(name: &str) -> Option<&'static [&'static str]> {
    const I: &[&str] = &["index"];
    const II: &[&str] = &["index", "index"];
    Some(match name {
        "call" | "local.get" | "local.set" | "local.tee" | "global.get" | "global.set" | "table.get" | "table.set"
        | "ref.func" | "memory.init" | "data.drop" | "elem.drop" | "table.grow" | "table.size" | "table.fill" | "br"
        | "br_if" => I,
        "i32.const" | "i64.const" | "v128.const" => &["int"],
        "f32.const" | "f64.const" => &["num"],
        "table.init" | "table.copy" => II,
        n if n.ends_with("_lane") && (n.contains(".load") || n.contains(".store")) => &["mem", "lane"],
        n if n.contains("_lane") || n == "i8x16.shuffle" => &["lane"],
        n if spec().contains_key(n) && (n.contains(".load") || n.contains(".store")) => &["mem"],
        _ => return None,
    })
}

pub fn p22(src: &str) -> O {
    let Some(m) = model(src) else { return Ok(V::Skip) };
    let msgs = [
        "expected identifier or unsigned integer",
        "expected integer",
        "expected floating-point number",
        "expected memory argument",
    ];
    let mut want = vec![];
    let mut n = 0;
    let mut free: Vec<R> = vec![];
    for i in m.instrs.iter().filter(|i| !i.block) {
        let Some(req) = requirement(&i.name) else { continue };
        let imms = i.operands.iter().take_while(|o| o.1.is_none()).count();
        let optional = i.name.starts_with("table.") || req[0] == "mem";
        let mut req: Vec<&str> = req.to_vec();
        if req == ["mem", "lane"] {
            req = match imms {
                0 | 1 => vec!["lane"],
                2 => vec!["mem", "lane"],
                _ => vec!["mem", "mem", "lane"],
            };
        }
        for (k, q) in req.iter().enumerate() {
            let Some((r, ins)) = i.operands.get(k) else { break };
            n += 1;
            if ins.is_some() {
                // an omitted table index or memory argument
                if optional {
                    break;
                }
                // the diagnostic is at the first token of the operand
                free.push((r.0, r.0 + 1));
                let first = m.toks.iter().find(|t| t.r.0 == r.0).unwrap().r;
                want.push((first, expect_msg(q)));
                continue;
            }
            let text = m.text(*r);
            let k = m.toks.iter().find(|t| t.r == *r).map(|t| t.k);
            let lex = match k {
                Some(TK::Id) => "id",
                Some(TK::Str) => "str",
                Some(TK::Num) => {
                    if model::is_uint(text.strip_prefix(['+', '-']).unwrap_or(text)) {
                        "int"
                    } else {
                        "float"
                    }
                }
                Some(TK::Word) if text.starts_with("offset=") || text.starts_with("align=") => "mem",
                Some(TK::Word) => "heap",
                _ => "type",
            };
            let ok = match *q {
                "index" | "lane" => matches!(lex, "id" | "int"),
                "int" => lex == "int",
                "num" => matches!(lex, "int" | "float"),
                _ => lex == "mem",
            };
            if !ok {
                let first = m.toks.iter().find(|t| t.r.0 == r.0).unwrap().r;
                want.push((first, expect_msg(q)));
            }
        }
    }
    let doc = Doc::new(src);
    let mut got = vec![];
    let mut mods = vec![];
    for d in doc.diags() {
        let msg = d["message"].as_str().unwrap_or("").to_string();
        let r = doc.map.range(&d["range"]).ok_or("diagnostic outside the document")?;
        if msgs.contains(&msg.as_str()) {
            got.push((r, msg));
        } else if msg == "only one module is allowed in one file" {
            mods.push(r);
        }
    }
    got.sort();
    want.sort();
    if got != want {
        let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).collect();
        let miss: Vec<_> = want.iter().filter(|g| !got.contains(g)).collect();
        return Err(format!("operand diagnostics: unexpected {extra:?}, missing {miss:?}"));
    }
    mods.sort();
    let wm: Vec<R> = m.modules.iter().skip(1).copied().collect();
    if mods.len() != wm.len() || mods.iter().zip(&wm).any(|(a, b)| a.0 < b.0 || a.1 > b.1) {
        return Err(format!("`only one module` is reported at {mods:?}, modules after the first are {wm:?}"));
    }
    pass(n + m.modules.len())
}
fn expect_msg(q: &str) -> String {
    match q {
        "index" | "lane" => "expected identifier or unsigned integer",
        "int" => "expected integer",
        "num" => "expected floating-point number",
        _ => "expected memory argument",
    }
    .to_string()
}

// ------------------------------------------------------------------ P23

fn sig_text(s: &Sig) -> String {
    let mut v: Vec<String> = s
        .params
        .iter()
        .map(|(n, t)| match n {
            Some(n) => format!("(param {n} {t})"),
            None => format!("(param {t})"),
        })
        .collect();
    v.extend(s.results.iter().map(|t| format!("(result {t})")));
    v.join(" ")
}
pub fn header(m: &Model, d: &Decl) -> String {
    let mut s = "(func".to_string();
    if let Some(n) = &d.name {
        s += &format!(" {n}");
    }
    if let Some(sig) = m.func_sig(d) {
        let t = sig_text(&sig);
        if !t.is_empty() {
            s += &format!(" {t}");
        }
    }
    s + ")"
}
fn hover_parts(v: &Value) -> Vec<String> {
    let one = |v: &Value| v["value"].as_str().or(v.as_str()).unwrap_or("").to_string();
    match &v["contents"] {
        Value::Array(a) => a.iter().map(one).collect(),
        Value::Null => vec![],
        c => vec![one(c)],
    }
}
fn doc_comment(m: &Model, node: R) -> String {
    let i = m.toks.iter().position(|t| t.r.0 == node.0).unwrap_or(0);
    let mut lines = vec![];
    let mut started = false;
    for t in m.toks[..i].iter().rev() {
        match t.k {
            TK::Ws => {}
            TK::LineC => match m.text(t.r).strip_prefix(";;;") {
                Some(x) => {
                    started = true;
                    lines.push(x.strip_prefix([' ', '\t']).unwrap_or(x).to_string());
                }
                None if started => break,
                None => {}
            },
            _ => break,
        }
    }
    lines.reverse();
    lines.join("\n")
}
fn hover_of(m: &Model, d: &Decl) -> Option<String> {
    Some(match d.k {
        DK::Func => {
            let mut s = format!("```wat\n{}\n```", header(m, d));
            let c = doc_comment(m, d.node);
            if !c.is_empty() {
                s += &format!("\n---\n{c}");
            }
            s
        }
        DK::Param | DK::Local => {
            let kw = if d.k == DK::Param { "param" } else { "local" };
            match &d.name {
                Some(n) => format!("({kw} {n} {})", d.ty.as_ref()?),
                None => format!("({kw} {})", d.ty.as_ref()?),
            }
        }
        DK::Global => {
            let n = d.name.as_ref().map(|n| format!(" {n}")).unwrap_or_default();
            let t = d.ty.as_ref()?;
            if d.mutable {
                format!("(global{n} (mut {t}))")
            } else {
                format!("(global{n} {t})")
            }
        }
        DK::Type => {
            let n = d.name.as_ref().map(|n| format!(" {n}")).unwrap_or_default();
            let t = sig_text(d.sig.as_ref()?);
            if t.is_empty() {
                format!("(type{n} (func))")
            } else {
                format!("(type{n} (func {t}))")
            }
        }
        _ => return None,
    })
}

pub fn p23(src: &str) -> O {
    let Some(m) = model(src).filter(|m| !m.odd) else { return Ok(V::Skip) };
    let doc = Doc::new(src);
    let mut n = 0;
    for d in &m.decls {
        let Some(r) = d.name_r else { continue };
        let Some(want) = hover_of(&m, d) else { continue };
        if m.ambiguous(d) && matches!(d.k, DK::Param | DK::Local) {
            continue;
        }
        let v = doc.at("hover", r.0);
        n += 1;
        if hover_parts(&v) != [want.clone()] {
            return Err(format!("hover of {} at {} shows {:?}, expected {want:?}", m.text(r), r.0, hover_parts(&v)));
        }
        if v["range"] != doc.map.jrange(r) {
            return Err(format!("hover of {} at {} has range {}", m.text(r), r.0, v["range"]));
        }
    }
    for u in &m.uses {
        if u.k == DK::Block || u.k == DK::Memory || u.k == DK::Table {
            continue;
        }
        let ds = m.defs(u);
        let want: Vec<String> = ds.iter().filter_map(|d| hover_of(&m, &m.decls[*d])).collect();
        if want.len() != ds.len() {
            continue;
        }
        let v = doc.at("hover", u.r.0);
        let mut got = hover_parts(&v);
        let mut want = want;
        if u.k == DK::Func {
            want = vec![want.join("\n---\n")];
        }
        n += 1;
        if ds.is_empty() {
            got.retain(|g| !g.is_empty());
            want.clear();
        }
        if got != want {
            return Err(format!("hover of {} at {} shows {got:?}, expected {want:?}", m.text(u.r), u.r.0));
        }
        if !ds.is_empty() && v["range"] != doc.map.jrange(u.r) {
            return Err(format!("hover of {} at {} has range {}", m.text(u.r), u.r.0, v["range"]));
        }
    }
    // inlay hints
    let mut r = rng_of(src);
    let b: Vec<usize> = src.char_indices().map(|c| c.0).chain([src.len()]).collect();
    for k in 0..4 {
        let sel = if k == 0 { (0, src.len()) } else { (*r.pick(&b), *r.pick(&b)) };
        let sel = (sel.0.min(sel.1), sel.0.max(sel.1));
        let inside = |x: R| sel.0 <= x.0 && x.1 <= sel.1;
        let mut want: Vec<(usize, String)> = vec![];
        for u in &m.uses {
            if !(u.k == DK::Local || u.k == DK::Global && u.instr.is_some()) || !inside(u.r) {
                continue;
            }
            if let Some(t) = m.defs(u).first().and_then(|d| m.decls[*d].ty.clone()) {
                want.push((u.r.1, t));
            }
        }
        for d in m.decls.iter().filter(|d| d.k == DK::Func) {
            if let Some(name) = &d.name {
                if inside((d.node.1 - 1, d.node.1)) {
                    want.push((d.node.1, format!("(func {name})")));
                }
            }
        }
        want.sort();
        let v = doc.range_req("inlayHint", sel);
        let mut got: Vec<(usize, String)> = vec![];
        for h in v.as_array().cloned().unwrap_or_default() {
            let o = doc
                .map
                .offset(h["position"]["line"].as_u64().unwrap_or(0) as u32, h["position"]["character"].as_u64().unwrap_or(0) as u32)
                .ok_or("inlay hint outside the document")?;
            got.push((o, h["label"].as_str().unwrap_or("").to_string()));
        }
        got.sort();
        n += 1;
        if got != want {
            let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).collect();
            let miss: Vec<_> = want.iter().filter(|g| !got.contains(g)).collect();
            return Err(format!("inlay hints in {sel:?}: unexpected {extra:?}, missing {miss:?}"));
        }
    }
    pass(n)
}

// ------------------------------------------------------------------ P24

fn visible<'a>(m: &'a Model, u: &model::Use) -> Vec<(Option<&'a str>, u32, Option<&'a str>)> {
    match u.k {
        DK::Block => u
            .blocks
            .iter()
            .enumerate()
            .map(|(i, b)| (m.decls[*b].name.as_deref(), i as u32, None))
            .collect(),
        k => m
            .decls
            .iter()
            .filter(|d| match k {
                DK::Local => matches!(d.k, DK::Param | DK::Local) && d.f == u.f,
                k => d.k == k && d.m == u.m,
            })
            .map(|d| {
                let ty = matches!(d.k, DK::Param | DK::Local | DK::Global).then_some(d.ty.as_deref()).flatten();
                (d.name.as_deref(), d.num, ty)
            })
            .collect(),
    }
}

fn check_items(v: &Value, vis: &[(Option<&str>, u32, Option<&str>)], dollar: bool, what: &str) -> Result<(), String> {
    let mut want: Vec<(String, Option<String>)> = vis
        .iter()
        .filter(|x| !dollar || x.0.is_some())
        .map(|x| (x.0.map(str::to_string).unwrap_or(x.1.to_string()), x.2.map(str::to_string)))
        .collect();
    let mut got: Vec<(String, Option<String>)> = v
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|i| {
            (
                i["label"].as_str().unwrap_or("").to_string(),
                i["labelDetails"]["description"].as_str().map(str::to_string),
            )
        })
        .collect();
    want.sort();
    got.sort();
    if got != want {
        return Err(format!("{what} offers {got:?}, expected {want:?}"));
    }
    for i in v.as_array().cloned().unwrap_or_default() {
        if let Some(t) = i["insertText"].as_str() {
            let l = i["label"].as_str().unwrap_or("");
            let w = if dollar { l.trim_start_matches('$') } else { l };
            if t != w && t != l {
                return Err(format!("{what}: item {l} inserts {t:?}"));
            }
        }
    }
    Ok(())
}

pub fn p24(src: &str) -> O {
    let Some(m) = model(src) else { return Ok(V::Skip) };
    let doc = Doc::new(src);
    let mut n = 0;
    for u in &m.uses {
        if u.k == DK::Local && u.f.is_none() {
            continue;
        }
        let vis = visible(&m, u);
        let text = m.text(u.r);
        let what = format!("completion after {text:?} at {}", u.r.1);
        check_items(&doc.at("completion", u.r.1), &vis, text.starts_with('$'), &what)?;
        n += 1;
    }
    // as long as nothing follows, it may become the table
    for i in m.instrs.iter().filter(|i| i.name == "table.init" && i.imm.len() == 1 && i.operands.len() == 1) {
        let r = m.toks[i.imm[0]].r;
        let vis: Vec<_> = m.decls.iter().filter(|d| d.k == DK::Table && d.m == i.m).map(|d| (d.name.as_deref(), d.num, None)).collect();
        check_items(&doc.at("completion", r.1), &vis, m.text(r).starts_with('$'), &format!("completion of table.init at {}", r.1))?;
        n += 1;
    }
    // an operand that is still to be written
    for i in m.instrs.iter().filter(|i| i.folded && !i.block && i.operands.len() == 1 && i.imm.len() == 1) {
        let r = m.toks[i.imm[0]].r;
        let Some(u) = m.uses.iter().find(|u| u.r == r) else { continue };
        if u.k == DK::Local && u.f.is_none() {
            continue;
        }
        let text = format!("{} {}", &src[..r.0], &src[r.1..]);
        let d2 = Doc::new(&text);
        let what = format!("completion of the missing operand at {} of {text:?}", r.0 + 1);
        check_items(&d2.at("completion", r.0 + 1), &visible(&m, u), false, &what)?;
        n += 1;
    }
    pass(n)
}

// ------------------------------------------------------------------ P25

pub fn p25(src: &str) -> O {
    let Some(m) = model(src).filter(|m| !m.odd) else { return Ok(V::Skip) };
    let doc = Doc::new(src);
    let mut n = 0;
    let item = |d: &Decl| {
        json!({"name": d.name.clone().unwrap_or(d.num.to_string()), "kind": 12, "detail": header(&m, d),
            "uri": doc.uri, "range": doc.map.jrange(d.node), "selectionRange": doc.map.jrange(d.loc)})
    };
    let funcs: Vec<usize> = (0..m.decls.len()).filter(|d| m.decls[*d].k == DK::Func).collect();
    // (caller, callee, call instruction)
    let mut calls = vec![];
    for u in m.uses.iter().filter(|u| u.k == DK::Func && u.instr.is_some()) {
        let Some(f) = u.f else { continue };
        for d in m.defs(u) {
            calls.push((f, d, u.instr.unwrap()));
        }
    }
    for &f in &funcs {
        let d = &m.decls[f];
        let v = doc.at("prepareCallHierarchy", d.loc.0);
        if v != json!([item(d)]) {
            return Err(format!("prepareCallHierarchy at {} answers {v}, expected {}", d.loc.0, json!([item(d)])));
        }
        let inc = dispatch(&doc.svc, "incomingCalls", json!({"item": item(d)}));
        let out = dispatch(&doc.svc, "outgoingCalls", json!({"item": item(d)}));
        // grouping of several calls between the same two functions is up to the server
        let flat = |v: &Value, k: &str| -> Vec<String> {
            let mut o = vec![];
            for c in v.as_array().cloned().unwrap_or_default() {
                for r in c["fromRanges"].as_array().cloned().unwrap_or_default() {
                    o.push(json!({"f": c[k], "r": r}).to_string());
                }
            }
            o.sort();
            o
        };
        let exp = |sel: &dyn Fn(&(usize, usize, R)) -> Option<usize>| -> Vec<String> {
            let mut o: Vec<String> = calls
                .iter()
                .filter_map(|c| sel(c).map(|x| json!({"f": item(&m.decls[x]), "r": doc.map.jrange(c.2)}).to_string()))
                .collect();
            o.sort();
            o
        };
        let wi = exp(&|c| (c.1 == f).then_some(c.0));
        let wo = exp(&|c| (c.0 == f).then_some(c.1));
        if flat(&inc, "from") != wi {
            return Err(format!("incoming calls of the function at {} are {:?}, expected {wi:?}", d.node.0, flat(&inc, "from")));
        }
        if flat(&out, "to") != wo {
            return Err(format!("outgoing calls of the function at {} are {:?}, expected {wo:?}", d.node.0, flat(&out, "to")));
        }
        n += 1 + wi.len() + wo.len();
    }
    for u in m.uses.iter().filter(|u| u.k == DK::Func && u.instr.is_some()) {
        let want: Vec<Value> = m.defs(u).iter().map(|d| item(&m.decls[*d])).collect();
        let v = doc.at("prepareCallHierarchy", u.r.0);
        let got = v.as_array().cloned().unwrap_or_default();
        if got != want {
            return Err(format!("prepareCallHierarchy at {} answers {v}, expected {want:?}", u.r.0));
        }
        n += 1;
    }
    pass(n)
}

/// Immediates for a generated instruction; none where the generator has no resolvable one.
pub fn gen_imm(r: &mut Rng, name: &str, s: &Spec) -> Option<String> {
    if matches!(name, "local.get" | "local.set" | "local.tee" | "global.get" | "global.set") {
        return Some(r.below(3).to_string());
    }
    let mem = name.contains(".load") || name.contains(".store");
    if mem {
        let mut v = vec![];
        if r.chance(60) {
            v.push("offset=8");
        }
        if r.chance(30) {
            v.push("align=1");
        }
        if s.imm == 2 {
            v.push("0");
        }
        return Some(v.join(" "));
    }
    if name.starts_with("table.") && r.chance(30) {
        return Some(String::new());
    }
    if name == "v128.const" {
        return Some(r.pick(&["i64x2 0 0", "i8x16 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0", "f64x2 1.5 2"]).to_string());
    }
    Some(imm_text(name, s))
}
