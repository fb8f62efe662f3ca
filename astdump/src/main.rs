//! Dumps the syntax tree of Rust source files as JSON, for deduct/. Nothing is dropped but comments,
//! attributes other than `cfg`, and types of expressions (types are kept as text).
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::{cell::RefCell, collections::HashMap};
use syn::{parse::Parser, punctuated::Punctuated, spanned::Spanned, *};

fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}
fn tss<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn line<T: Spanned>(t: &T) -> usize {
    t.span().start().line
}
fn path(p: &Path) -> Value {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    json!(segs.join("::"))
}
fn lit(l: &Lit) -> Value {
    match l {
        Lit::Str(s) => json!({"k": "str", "v": s.value()}),
        Lit::Char(c) => json!({"k": "char", "v": c.value().to_string()}),
        Lit::Int(i) => json!({"k": "int", "v": i.base10_digits().parse::<i128>().map(|n| n.to_string()).unwrap_or_default()}),
        Lit::Bool(b) => json!({"k": "bool", "v": b.value}),
        Lit::Float(f) => json!({"k": "float", "v": f.base10_digits()}),
        Lit::Byte(b) => json!({"k": "int", "v": b.value().to_string()}),
        _ => json!({"k": "lit?", "v": tss(l)}),
    }
}
fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) => json!({"k": "pid", "n": i.ident.to_string(), "mut": i.mutability.is_some(), "ref": i.by_ref.is_some(),
            "sub": i.subpat.as_ref().map(|s| pat(&s.1))}),
        Pat::Tuple(t) => json!({"k": "ptuple", "e": t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::TupleStruct(t) => json!({"k": "pts", "p": path(&t.path), "e": t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Struct(t) => json!({"k": "pstruct", "p": path(&t.path), "rest": t.rest.is_some(),
            "f": t.fields.iter().map(|f| json!([ts(&f.member), pat(&f.pat)])).collect::<Vec<_>>()}),
        Pat::Path(t) => json!({"k": "ppath", "p": path(&t.path)}),
        Pat::Lit(l) => json!({"k": "plit", "v": lit(&l.lit)}),
        Pat::Or(o) => json!({"k": "por", "e": o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Wild(_) => json!({"k": "pwild"}),
        Pat::Reference(r) => json!({"k": "pref", "e": pat(&r.pat)}),
        Pat::Range(r) => json!({"k": "prange", "lo": r.start.as_ref().map(|e| expr(e)), "hi": r.end.as_ref().map(|e| expr(e)),
            "incl": matches!(r.limits, RangeLimits::Closed(_))}),
        Pat::Slice(s) => json!({"k": "pslice", "e": s.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Rest(_) => json!({"k": "prest"}),
        Pat::Paren(p) => pat(&p.pat),
        Pat::Type(t) => pat(&t.pat),
        _ => json!({"k": "pat?", "t": tss(p)}),
    }
}
fn block(b: &Block) -> Value {
    json!({"k": "block", "s": b.stmts.iter().map(stmt).collect::<Vec<_>>(), "l": line(b)})
}
fn stmt(s: &Stmt) -> Value {
    match s {
        Stmt::Local(l) => json!({"k": "let", "p": pat(&l.pat), "ty": if let Pat::Type(t) = &l.pat { Some(ts(&t.ty)) } else { None },
            "e": l.init.as_ref().map(|i| expr(&i.expr)),
            "else": l.init.as_ref().and_then(|i| i.diverge.as_ref()).map(|d| expr(&d.1)), "l": line(s)}),
        Stmt::Expr(e, semi) => json!({"k": "expr", "e": expr(e), "semi": semi.is_some(), "l": line(s)}),
        Stmt::Macro(m) => json!({"k": "expr", "e": mac(&m.mac), "semi": m.semi_token.is_some(), "l": line(s)}),
        Stmt::Item(i) => json!({"k": "item", "i": item(i), "l": line(s)}),
    }
}
struct Matches(Expr, Pat, Option<Expr>);
impl parse::Parse for Matches {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let e = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) {
            i.parse::<Token![if]>()?;
            Some(i.parse()?)
        } else {
            None
        };
        let _ = i.parse::<Option<Token![,]>>()?;
        Ok(Matches(e, p, g))
    }
}
struct Dispatch(Expr, Vec<Arm>);
impl parse::Parse for Dispatch {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let e = i.parse()?;
        i.parse::<Token![;]>()?;
        let mut v = vec![];
        while !i.is_empty() {
            v.push(i.parse()?);
        }
        Ok(Dispatch(e, v))
    }
}
fn arm(a: &Arm) -> Value {
    json!({"p": pat(&a.pat), "g": a.guard.as_ref().map(|g| expr(&g.1)), "e": expr(&a.body), "l": line(&a.pat)})
}
// macro_rules! with one rule `($a:frag, $b:frag) => { body }` of the same file: calls are expanded
thread_local!(static MACROS: RefCell<HashMap<String, (Vec<String>, TokenStream)>> = RefCell::default());
fn define(m: &ItemMacro) {
    let Some(name) = &m.ident else { return };
    let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let (Some(TokenTree::Group(head)), Some(TokenTree::Group(body))) = (ts.first(), ts.get(3)) else { return };
    if ts.len() > 5 {
        return;
    }
    let mut params = vec![];
    for p in split(head.stream()) {
        match &p[..] {
            [TokenTree::Punct(d), TokenTree::Ident(n), TokenTree::Punct(c), TokenTree::Ident(_)] if d.as_char() == '$' && c.as_char() == ':' => params.push(n.to_string()),
            _ => return,
        }
    }
    MACROS.with(|x| x.borrow_mut().insert(name.to_string(), (params, body.stream())));
}
fn split(t: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut v: Vec<Vec<TokenTree>> = vec![];
    let mut cur = vec![];
    for x in t {
        match &x {
            TokenTree::Punct(p) if p.as_char() == ',' => v.push(std::mem::take(&mut cur)),
            _ => cur.push(x),
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}
fn fill(t: TokenStream, m: &HashMap<String, Vec<TokenTree>>) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut it = t.into_iter().peekable();
    while let Some(x) = it.next() {
        match &x {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = it.peek() {
                    if let Some(v) = m.get(&n.to_string()) {
                        out.extend(v.iter().cloned());
                        it.next();
                        continue;
                    }
                }
                out.push(x);
            }
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), fill(g.stream(), m)))),
            _ => out.push(x),
        }
    }
    out.into_iter().collect()
}
fn expand(name: &str, args: TokenStream) -> Option<Block> {
    let (params, body) = MACROS.with(|x| x.borrow().get(name).cloned())?;
    let args = split(args);
    if args.len() != params.len() {
        return None;
    }
    let body = fill(body, &params.into_iter().zip(args).collect());
    syn::parse2(TokenTree::Group(Group::new(Delimiter::Brace, body)).into()).ok()
}
fn mac(m: &Macro) -> Value {
    let name = m.path.segments.last().unwrap().ident.to_string();
    let t = m.tokens.clone();
    let l = line(&m.path);
    if let Some(b) = expand(&name, t.clone()) {
        return block(&b);
    }
    if name == "matches" {
        if let Ok(Matches(e, p, g)) = syn::parse2::<Matches>(t.clone()) {
            return json!({"k": "matches", "e": expr(&e), "p": pat(&p), "g": g.as_ref().map(expr), "l": l});
        }
    }
    if name == "dispatch" {
        if let Ok(Dispatch(e, arms)) = syn::parse2::<Dispatch>(t.clone()) {
            return json!({"k": "dispatch", "e": expr(&e), "a": arms.iter().map(arm).collect::<Vec<_>>(), "l": l});
        }
    }
    let args = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(t.clone()).ok();
    json!({"k": "macro", "n": name, "a": args.map(|a| a.iter().map(expr).collect::<Vec<_>>()), "t": t.to_string(), "l": l})
}
fn expr(e: &Expr) -> Value {
    let l = line(e);
    match e {
        Expr::Lit(x) => lit(&x.lit),
        Expr::Path(p) => json!({"k": "path", "p": path(&p.path), "t": ts(&p.path), "l": l}),
        Expr::Call(c) => json!({"k": "call", "f": expr(&c.func), "a": c.args.iter().map(expr).collect::<Vec<_>>(), "l": l}),
        Expr::MethodCall(c) => json!({"k": "mcall", "r": expr(&c.receiver), "m": c.method.to_string(),
            "tf": c.turbofish.as_ref().map(ts), "a": c.args.iter().map(expr).collect::<Vec<_>>(), "l": line(&c.method)}),
        Expr::Closure(c) => json!({"k": "closure", "i": c.inputs.iter().map(pat).collect::<Vec<_>>(), "e": expr(&c.body), "move": c.capture.is_some(), "l": l}),
        Expr::Tuple(t) => json!({"k": "tuple", "e": t.elems.iter().map(expr).collect::<Vec<_>>(), "l": l}),
        Expr::Array(t) => json!({"k": "array", "e": t.elems.iter().map(expr).collect::<Vec<_>>(), "l": l}),
        Expr::Repeat(t) => json!({"k": "repeat", "e": expr(&t.expr), "n": expr(&t.len), "l": l}),
        Expr::Block(b) => block(&b.block),
        Expr::Unsafe(b) => json!({"k": "unsafe", "b": block(&b.block), "l": l}),
        Expr::If(i) => json!({"k": "if", "c": expr(&i.cond), "t": block(&i.then_branch), "e": i.else_branch.as_ref().map(|e| expr(&e.1)), "l": l}),
        Expr::Let(x) => json!({"k": "iflet", "p": pat(&x.pat), "e": expr(&x.expr), "l": l}),
        Expr::Match(m) => json!({"k": "match", "e": expr(&m.expr), "a": m.arms.iter().map(arm).collect::<Vec<_>>(), "l": l}),
        Expr::Field(f) => json!({"k": "field", "e": expr(&f.base), "n": ts(&f.member), "l": l}),
        Expr::Index(i) => json!({"k": "index", "e": expr(&i.expr), "i": expr(&i.index), "l": l}),
        Expr::Unary(u) => json!({"k": "un", "o": ts(&u.op), "e": expr(&u.expr), "l": l}),
        Expr::Binary(b) => json!({"k": "bin", "o": ts(&b.op), "a": expr(&b.left), "b": expr(&b.right), "l": l}),
        Expr::Assign(a) => json!({"k": "assign", "a": expr(&a.left), "b": expr(&a.right), "l": l}),
        Expr::Reference(r) => json!({"k": "ref", "mut": r.mutability.is_some(), "e": expr(&r.expr), "l": l}),
        Expr::Try(t) => json!({"k": "try", "e": expr(&t.expr), "l": l}),
        Expr::Return(r) => json!({"k": "return", "e": r.expr.as_ref().map(|e| expr(e)), "l": l}),
        Expr::Break(r) => json!({"k": "break", "e": r.expr.as_ref().map(|e| expr(e)), "l": l}),
        Expr::Continue(_) => json!({"k": "continue", "l": l}),
        Expr::Loop(b) => json!({"k": "loop", "b": block(&b.body), "l": l}),
        Expr::While(b) => json!({"k": "while", "c": expr(&b.cond), "b": block(&b.body), "l": l}),
        Expr::ForLoop(b) => json!({"k": "for", "p": pat(&b.pat), "e": expr(&b.expr), "b": block(&b.body), "l": l}),
        Expr::Range(r) => json!({"k": "range", "lo": r.start.as_ref().map(|e| expr(e)), "hi": r.end.as_ref().map(|e| expr(e)),
            "incl": matches!(r.limits, RangeLimits::Closed(_)), "l": l}),
        Expr::Struct(s) => json!({"k": "struct", "p": path(&s.path), "rest": s.rest.as_ref().map(|e| expr(e)),
            "f": s.fields.iter().map(|f| json!([ts(&f.member), expr(&f.expr)])).collect::<Vec<_>>(), "l": l}),
        Expr::Cast(c) => json!({"k": "cast", "e": expr(&c.expr), "ty": ts(&c.ty), "l": l}),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Macro(m) => mac(&m.mac),
        _ => json!({"k": "expr?", "t": tss(e), "l": l}),
    }
}
fn cfg_test(a: &[Attribute]) -> bool {
    a.iter().any(|a| a.path().is_ident("cfg") && tss(&a.meta).contains("test"))
}
fn attributes(a: &[Attribute]) -> Vec<String> {
    a.iter().filter(|a| !a.path().is_ident("doc")).map(|a| tss(&a.meta)).collect()
}
fn func(sig: &Signature, b: Option<&Block>, attrs: &[Attribute]) -> Value {
    json!({"k": "fn", "n": sig.ident.to_string(), "l": line(sig), "g": tss(&sig.generics), "w": sig.generics.where_clause.as_ref().map(tss),
        "i": sig.inputs.iter().map(|a| match a {
            FnArg::Receiver(r) => json!({"p": {"k": "pid", "n": "self", "mut": false, "ref": false, "sub": null}, "ty": ts(r)}),
            FnArg::Typed(t) => json!({"p": pat(&t.pat), "ty": ts(&t.ty)}),
        }).collect::<Vec<_>>(),
        "o": match &sig.output { ReturnType::Default => "()".into(), ReturnType::Type(_, t) => ts(t) },
        "b": b.map(block), "test": cfg_test(attrs), "at": attributes(attrs)})
}
fn item(i: &Item) -> Value {
    match i {
        Item::Fn(f) => func(&f.sig, Some(&f.block), &f.attrs),
        Item::Impl(i) => json!({"k": "impl", "ty": ts(&i.self_ty), "tr": i.trait_.as_ref().map(|t| ts(&t.1)), "l": line(i),
            "items": i.items.iter().map(|x| match x {
                ImplItem::Fn(f) => func(&f.sig, Some(&f.block), &f.attrs),
                ImplItem::Const(c) => json!({"k": "const", "n": c.ident.to_string(), "e": expr(&c.expr)}),
                x => json!({"k": "other", "t": tss(x)}),
            }).collect::<Vec<_>>()}),
        Item::Trait(t) => json!({"k": "trait", "n": t.ident.to_string(), "at": attributes(&t.attrs), "items": t.items.iter().map(|x| match x {
                TraitItem::Fn(f) => func(&f.sig, f.default.as_ref(), &f.attrs),
                x => json!({"k": "other", "t": tss(x)}),
            }).collect::<Vec<_>>()}),
        Item::Const(c) => json!({"k": "const", "n": c.ident.to_string(), "ty": ts(&c.ty), "e": expr(&c.expr), "l": line(i)}),
        Item::Type(t) if t.generics.params.is_empty() => json!({"k": "type", "n": t.ident.to_string(), "ty": ts(&t.ty)}),
        Item::Static(c) => json!({"k": "const", "static": true, "mut": matches!(c.mutability, StaticMutability::Mut(_)), "n": c.ident.to_string(), "ty": ts(&c.ty), "e": expr(&c.expr), "l": line(i)}),
        Item::Enum(e) => json!({"k": "enum", "n": e.ident.to_string(), "l": line(i), "attrs": attributes(&e.attrs), "v": e.variants.iter().map(|v| json!({
            "n": v.ident.to_string(), "d": v.discriminant.as_ref().map(|d| expr(&d.1)), "f": v.fields.iter().map(|f| ts(&f.ty)).collect::<Vec<_>>()})).collect::<Vec<_>>()}),
        Item::Struct(s) => json!({"k": "structdef", "n": s.ident.to_string(), "f": s.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), ts(&f.ty)])).collect::<Vec<_>>(),
            "attrs": s.attrs.iter().map(|a| tss(&a.meta)).collect::<Vec<_>>()}),
        Item::Mod(m) => json!({"k": "mod", "n": m.ident.to_string(), "test": cfg_test(&m.attrs),
            "items": m.content.as_ref().map(|c| c.1.iter().map(item).collect::<Vec<_>>())}),
        Item::Use(u) => json!({"k": "use", "t": ts(&u.tree)}),
        Item::Macro(m) if { define(m); false } => json!(null),
        Item::Macro(m) => json!({"k": "macrodef", "n": m.ident.as_ref().map(|i| i.to_string()), "t": m.mac.tokens.to_string()}),
        i => json!({"k": "other", "t": tss(i)}),
    }
}
fn main() {
    let mut out = serde_json::Map::new();
    for p in std::env::args().skip(1) {
        let s = std::fs::read_to_string(&p).unwrap();
        MACROS.with(|x| x.borrow_mut().clear());
        match syn::parse_file(&s) {
            Ok(f) => out.insert(p, json!(f.items.iter().map(item).collect::<Vec<_>>())),
            Err(e) => out.insert(p, json!({"error": e.to_string()})),
        };
    }
    println!("{}", Value::Object(out));
}
