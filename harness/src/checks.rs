//! One oracle per property. Each is a deterministic function of the document text:
//! it asks the real code and compares the answer with the reference model.
use crate::gen::Rng;
use crate::model::{self, Decl, Model, DK, R, TK};
use crate::svc::{canon, dispatch, new_service, Doc, LEGEND};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use wat_parser::Parser;
use wat_syntax::{SyntaxKind, SyntaxNode};

pub enum V {
    Skip,
    /// number of facts compared
    Pass(usize),
    Fail(String),
}
pub type O = Result<V, String>;

/// The built-in randomness of an oracle depends on the text only, so that a failing
/// text fails again on replay and while shrinking.
pub fn rng_of(s: &str) -> Rng {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    Rng(h | 1)
}

pub fn parse(s: &str) -> (SyntaxNode, Vec<(usize, usize, String)>) {
    let mut p = Parser::new(s);
    let g = p.parse_to_green();
    let e = p.errors().iter().map(|e| (e.start, e.end, format!("{}", e.message))).collect();
    (SyntaxNode::new_root(g), e)
}

/// The model of a document that the parser accepts, too.
pub fn model(src: &str) -> Option<Model> {
    let m = Model::build(src)?;
    parse(src).1.is_empty().then_some(m)
}

fn show(src: &str, rs: &[R]) -> String {
    let v: Vec<String> = rs.iter().map(|r| format!("{}..{} {:?}", r.0, r.1, src.get(r.0..r.1).unwrap_or("?"))).collect();
    format!("[{}]", v.join(", "))
}

// ------------------------------------------------------------------ parser

pub fn p01(src: &str) -> O {
    let (root, _) = parse(src);
    let t = root.text().to_string();
    if t != src {
        return Err(format!("tree text is {t:?}"));
    }
    // token ranges tile the document
    let mut at = 0;
    let mut n = 0;
    for tok in root.descendants_with_tokens().filter_map(|e| e.into_token()) {
        let r = tok.text_range();
        if usize::from(r.start()) != at {
            return Err(format!("token at {:?} expected at {at}", r));
        }
        at = r.end().into();
        n += 1;
    }
    if at != src.len() {
        return Err(format!("tokens end at {at}, document at {}", src.len()));
    }
    Ok(V::Pass(n))
}

pub fn p02(src: &str) -> O {
    let (root, _) = parse(src);
    if root.kind() != SyntaxKind::ROOT {
        return Err(format!("root node is {:?}", root.kind()));
    }
    Ok(V::Pass(1))
}

pub fn p03(src: &str) -> O {
    let (root, errs) = parse(src);
    for (s, e, m) in &errs {
        if s > e || *e > src.len() || !src.is_char_boundary(*s) || !src.is_char_boundary(*e) {
            return Err(format!("error {m:?} has range {s}..{e} in a document of {} bytes", src.len()));
        }
    }
    // known finding: what follows an unmatched `)` between modules is kept silently
    let stray = root
        .children_with_tokens()
        .find(|e| e.kind() == SyntaxKind::ERROR && e.as_token().is_some_and(|t| t.text() == ")"))
        .map_or(src.len(), |e| e.text_range().start().into());
    let err_tok = root
        .descendants_with_tokens()
        .any(|e| e.kind() == SyntaxKind::ERROR && usize::from(e.text_range().start()) < stray);
    if err_tok && errs.is_empty() {
        return Err("the tree contains an ERROR token but no syntax error is reported".into());
    }
    if let Some(toks) = model::lex(src) {
        let mut d = 0i64;
        let mut bad = false;
        for t in &toks {
            match t.k {
                TK::L => d += 1,
                TK::R => {
                    d -= 1;
                    bad |= d < 0;
                }
                _ => {}
            }
        }
        if !bad && d != 0 && errs.is_empty() {
            return Err("parentheses are unbalanced but no syntax error is reported".into());
        }
    }
    // what the service shows is what the parser found
    let doc = Doc::new(src);
    let shown = doc.diags().iter().filter(|d| d["message"].as_str().unwrap_or("").starts_with("syntax error")).count();
    if shown != errs.len() {
        return Err(format!("{} syntax errors, {shown} of them shown as diagnostics", errs.len()));
    }
    if Model::build(src).is_some() {
        if !errs.is_empty() {
            return Err(format!("well-formed document has syntax errors {errs:?}"));
        }
        if err_tok {
            return Err("well-formed document has ERROR tokens".into());
        }
        if let Some(m) = missing(src) {
            if parse(&m).1.is_empty() {
                return Err(format!("no syntax error reported for {m:?}"));
            }
            return Ok(V::Pass(errs.len() + 3));
        }
    }
    Ok(V::Pass(errs.len() + 1))
}

/// A malformed variant of a well-formed document: a required piece removed.
fn missing(src: &str) -> Option<String> {
    let toks: Vec<_> = model::lex(src)?.into_iter().filter(|t| !matches!(t.k, TK::Ws | TK::LineC | TK::BlockC)).collect();
    let mut r = rng_of(src);
    let text = |i: usize| &src[toks[i].r.0..toks[i].r.1];
    let mut cands: Vec<R> = vec![];
    for i in 0..toks.len() {
        match toks[i].k {
            TK::R => cands.push(toks[i].r),
            TK::Str if i >= 2 && matches!(text(i - 1), "import" | "export") => cands.push(toks[i].r),
            TK::Str if i >= 2 && text(i - 2) == "import" => cands.push(toks[i].r),
            _ => {}
        }
    }
    if cands.is_empty() {
        return None;
    }
    let c = *r.pick(&cands);
    Some(format!("{} {}", &src[..c.0], &src[c.1..]))
}

// ------------------------------------------------------------------ names

/// exhaustive, independent of the document
pub fn p05_chars() -> O {
    let mut n = 0;
    for c in '\0'..=char::MAX {
        n += 1;
        if wat_parser::is_id_char(c) != model::idchar(c) {
            return Err(format!("is_id_char({c:?}) is {}", wat_parser::is_id_char(c)));
        }
    }
    let src = "(module (func $a))";
    let doc = Doc::new(src);
    let ask = |name: &str| doc.rename(15, name).get("ok").is_some();
    let mut r = Rng(77);
    let mut some: Vec<char> = ('\0'..='\u{2ff}').collect();
    some.extend(['\u{2028}', '\u{feff}', '\u{1F600}', '\u{10ffff}', '\u{ff21}', '\u{391}', '\u{430}']);
    for &c in &some {
        for name in [format!("${c}"), format!("$a{c}"), format!("${c}b"), format!("$a{c}b"), format!("{c}"), format!("{c}a")] {
            let ok = name.strip_prefix('$').is_some_and(|t| !t.is_empty() && t.chars().all(model::idchar));
            n += 1;
            if ask(&name) != ok {
                return Err(format!("rename to {name:?} is {}", if ok { "refused" } else { "accepted" }));
            }
        }
        // the parser splits an identifier exactly at the first character that isn't an idchar
        let t = format!("(module (func $a{c}b))");
        let (root, _) = parse(&t);
        let id = root
            .descendants_with_tokens()
            .filter_map(|e| e.into_token())
            .find(|t| t.kind() == SyntaxKind::IDENT)
            .map(|t| t.text().to_string());
        let want = if model::idchar(c) { format!("$a{c}b") } else { "$a".to_string() };
        n += 1;
        if id.as_deref() != Some(want.as_str()) {
            return Err(format!("identifier in {t:?} is {id:?}"));
        }
    }
    for _ in 0..2000 {
        let mut name = String::new();
        for _ in 0..r.below(6) {
            name.push(if r.chance(60) { '$' } else { *r.pick(&some) });
        }
        let ok = name.strip_prefix('$').is_some_and(|t| !t.is_empty() && t.chars().all(model::idchar));
        n += 1;
        if ask(&name) != ok {
            return Err(format!("rename to {name:?} is {}", if ok { "refused" } else { "accepted" }));
        }
    }
    Ok(V::Pass(n))
}

// ------------------------------------------------------------------ resolution

fn use_positions(r: R) -> Vec<usize> {
    if r.1 - r.0 > 1 {
        vec![r.0, r.0 + 1, r.1 - 1]
    } else {
        vec![r.0]
    }
}

pub fn p06(src: &str) -> O {
    let Some(m) = model(src) else { return Ok(V::Skip) };
    let doc = Doc::new(src);
    let mut n = 0;
    for u in &m.uses {
        let defs = m.defs(u);
        let mut want: Vec<R> = defs.iter().map(|d| m.decls[*d].loc).collect();
        want.sort();
        for o in use_positions(u.r) {
            let got = doc.locs(&doc.at("definition", o))?;
            n += 1;
            if got != want {
                return Err(format!(
                    "definition of {:?} at {} is {}, expected {}",
                    m.text(u.r),
                    u.r.0,
                    show(src, &got),
                    show(src, &want)
                ));
            }
        }
        if u.k == DK::Func && u.instr.is_some() {
            let got = doc.locs(&doc.at("declaration", u.r.0))?;
            if got != want {
                return Err(format!("declaration of {:?} at {} is {}, expected {}", m.text(u.r), u.r.0, show(src, &got), show(src, &want)));
            }
            let mut want: Vec<R> = defs
                .iter()
                .filter_map(|d| m.decls[*d].type_use)
                .flat_map(|t| m.defs(&m.uses[t]))
                .map(|d| m.decls[d].loc)
                .collect();
            want.sort();
            let got = doc.locs(&doc.at("typeDefinition", u.r.0))?;
            n += 2;
            if got != want {
                return Err(format!("type definition of {:?} at {} is {}, expected {}", m.text(u.r), u.r.0, show(src, &got), show(src, &want)));
            }
        }
    }
    Ok(if n == 0 { V::Skip } else { V::Pass(n) })
}

pub fn p07(src: &str) -> O {
    let Some(m) = model(src) else { return Ok(V::Skip) };
    let doc = Doc::new(src);
    let mut n = 0;
    let res: Vec<Vec<usize>> = m.uses.iter().map(|u| m.defs(u)).collect();
    let uses_of = |d: usize| -> Vec<R> {
        m.uses.iter().zip(&res).filter(|(_, ds)| ds.contains(&d)).map(|(u, _)| u.r).collect()
    };
    for (i, d) in m.decls.iter().enumerate() {
        if m.ambiguous(d) {
            continue;
        }
        for decl in [true, false] {
            let got = doc.locs(&doc.refs(d.loc.0, decl))?;
            let mut want = uses_of(i);
            if decl {
                want.push(d.loc);
            }
            want.sort();
            n += 1;
            if got != want {
                return Err(format!(
                    "references of {:?} declared at {} (include_declaration={decl}) are {}, expected {}",
                    m.text(d.loc),
                    d.loc.0,
                    show(src, &got),
                    show(src, &want)
                ));
            }
        }
    }
    for (u, ds) in m.uses.iter().zip(&res) {
        if ds.len() != 1 || m.ambiguous(&m.decls[ds[0]]) {
            continue;
        }
        for decl in [true, false] {
            let got = doc.locs(&doc.refs(u.r.0, decl))?;
            let mut want = uses_of(ds[0]);
            if decl {
                want.push(m.decls[ds[0]].loc);
            }
            want.sort();
            n += 1;
            if got != want {
                return Err(format!(
                    "references of {:?} used at {} (include_declaration={decl}) are {}, expected {}",
                    m.text(u.r),
                    u.r.0,
                    show(src, &got),
                    show(src, &want)
                ));
            }
        }
    }
    Ok(if n == 0 { V::Skip } else { V::Pass(n) })
}

pub fn p08(src: &str) -> O {
    let Some(m) = model(src) else { return Ok(V::Skip) };
    let doc = Doc::new(src);
    let mut n = 0;
    let fresh = "$fresh-name0";
    if src.contains(fresh) {
        return Ok(V::Skip);
    }
    // occurrences of a symbol: declaration, repeated labels and uses by name
    let occ = |d: usize| -> BTreeSet<R> {
        let mut s: BTreeSet<R> = m.decls[d].name_r.into_iter().collect();
        s.extend(m.decls[d].extra.iter().copied());
        for u in &m.uses {
            if u.name.is_some() && m.defs(u).contains(&d) {
                s.insert(u.r);
            }
        }
        s
    };
    for (i, d) in m.decls.iter().enumerate() {
        let Some(name) = &d.name else { continue };
        let least = occ(i);
        // names that the code treats as one symbol (see known-findings.jsonl): same name,
        // same module (fields) or same function (params and locals)
        let mut most = least.clone();
        let same = |o: &Decl| {
            o.name == d.name
                && match d.k {
                    DK::Block => false,
                    DK::Param | DK::Local => matches!(o.k, DK::Param | DK::Local) && o.f == d.f,
                    _ => !matches!(o.k, DK::Param | DK::Local | DK::Block) && o.m == d.m,
                }
        };
        for (j, o) in m.decls.iter().enumerate() {
            if same(o) {
                most.extend(occ(j));
            }
        }
        if !matches!(d.k, DK::Block) {
            // unresolved uses of another kind with the same name
            for u in &m.uses {
                let local = u.k == DK::Local;
                if u.name.as_ref() == Some(name)
                    && u.k != DK::Block
                    && local == matches!(d.k, DK::Param | DK::Local)
                    && if local { u.f == d.f } else { u.m == d.m }
                    && m.defs(u).is_empty()
                {
                    most.insert(u.r);
                }
            }
        }
        for &at in &least {
            let v = doc.rename(at.0, fresh);
            let Some(ch) = v["ok"]["changes"].get(&doc.uri) else {
                return Err(format!("rename of {name} at {} gives {v}", at.0));
            };
            let mut got = BTreeSet::new();
            for e in ch.as_array().cloned().unwrap_or_default() {
                let r = doc.map.range(&e["range"]).ok_or(format!("edit outside the document {e}"))?;
                if e["newText"] != json!(fresh) {
                    return Err(format!("edit inserts {}", e["newText"]));
                }
                if !got.insert(r) {
                    return Err(format!("range {r:?} edited twice"));
                }
            }
            if !least.is_subset(&got) || !got.is_subset(&most) {
                let l: Vec<R> = least.iter().copied().collect();
                let g: Vec<R> = got.iter().copied().collect();
                return Err(format!("rename of {name} at {} edits {}, expected {}", at.0, show(src, &g), show(src, &l)));
            }
            n += 1;
            if v["ok"]["changes"].as_object().map(|o| o.len()) != Some(1) {
                return Err(format!("rename touches other documents: {v}"));
            }
            // the way back
            let text = doc.apply(src, ch)?;
            let d2 = Doc::new(&text);
            let shift = least.iter().chain(most.iter()).collect::<BTreeSet<_>>();
            let _ = shift;
            let delta = got.iter().filter(|r| r.0 < at.0).count() as i64 * (fresh.len() as i64 - name.len() as i64);
            let back = d2.rename((at.0 as i64 + delta) as usize, name);
            let Some(ch2) = back["ok"]["changes"].get(&d2.uri) else {
                return Err(format!("renaming back gives {back}"));
            };
            let again = d2.apply(&text, ch2)?;
            if again != src {
                return Err(format!("renaming {name} at {} to {fresh} and back gives {again:?}", at.0));
            }
        }
    }
    Ok(if n == 0 { V::Skip } else { V::Pass(n) })
}

fn diag_set(doc: &Doc, f: impl Fn(&str) -> bool) -> Result<Vec<(R, String, Value)>, String> {
    let mut out = vec![];
    for d in doc.diags() {
        let msg = d["message"].as_str().unwrap_or("").to_string();
        if f(&msg) {
            let r = doc.map.range(&d["range"]).ok_or_else(|| format!("diagnostic outside the document: {d}"))?;
            out.push((r, msg, d["relatedInformation"].clone()));
        }
    }
    out.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
    Ok(out)
}

pub fn p09(src: &str) -> O {
    let Some(m) = model(src) else { return Ok(V::Skip) };
    let doc = Doc::new(src);
    let got: Vec<(R, String)> =
        diag_set(&doc, |m| m.starts_with("cannot find"))?.into_iter().map(|d| (d.0, d.1)).collect();
    let mut want: Vec<(R, String)> = m
        .uses
        .iter()
        .filter(|u| m.defs(u).is_empty())
        .map(|u| (u.r, format!("cannot find `{}` in this scope", u.num.map_or(m.text(u.r).to_string(), |n| n.to_string()))))
        .collect();
    want.sort();
    if got != want {
        let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).collect();
        let miss: Vec<_> = want.iter().filter(|g| !got.contains(g)).collect();
        return Err(format!("undefined-name diagnostics: unexpected {extra:?}, missing {miss:?} (got {} want {})", got.len(), want.len()));
    }
    Ok(if m.uses.is_empty() { V::Skip } else { V::Pass(m.uses.len()) })
}

pub fn p10(src: &str) -> O {
    let Some(m) = model(src) else { return Ok(V::Skip) };
    let doc = Doc::new(src);
    let labels: BTreeSet<R> = m.decls.iter().filter(|d| d.k == DK::Block).filter_map(|d| d.name_r).collect();
    let mut got = vec![];
    for (r, msg, rel) in diag_set(&doc, |m| m.starts_with("duplicated name"))? {
        if labels.contains(&r) {
            continue;
        }
        let mut rr = vec![];
        for i in rel.as_array().cloned().unwrap_or_default() {
            if i["location"]["uri"] != json!(doc.uri) {
                return Err(format!("related information in another document {i}"));
            }
            rr.push(doc.map.range(&i["location"]["range"]).ok_or("related range outside the document")?);
        }
        rr.sort();
        got.push((r, msg, rr));
    }
    let mut want = vec![];
    let mut n = 0;
    for (i, d) in m.decls.iter().enumerate() {
        let (Some(name), Some(r)) = (&d.name, d.name_r) else { continue };
        if d.k == DK::Block {
            continue;
        }
        n += 1;
        let local = |k: DK| matches!(k, DK::Param | DK::Local);
        let mut others: Vec<R> = m
            .decls
            .iter()
            .enumerate()
            .filter(|(j, o)| {
                *j != i
                    && o.k != DK::Block
                    && o.name == d.name
                    && local(o.k) == local(d.k)
                    && if local(d.k) { o.f == d.f } else { o.m == d.m }
            })
            .filter_map(|(_, o)| o.name_r)
            .collect();
        others.sort();
        if !others.is_empty() {
            want.push((r, format!("duplicated name `{name}` in this scope"), others));
        }
    }
    want.sort();
    got.sort();
    if got != want {
        let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).collect();
        let miss: Vec<_> = want.iter().filter(|g| !got.contains(g)).collect();
        return Err(format!("duplicate-name diagnostics: unexpected {extra:?}, missing {miss:?}"));
    }
    Ok(if n == 0 { V::Skip } else { V::Pass(n) })
}
