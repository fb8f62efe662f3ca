//! Reference model of a WAT document, written from the WebAssembly text format
//! and independent of the code under test: its own lexer, s-expression reader,
//! declaration table and scoping rules. `Model::build` returns `None` on text
//! outside the fragment it understands; checks are skipped there.

pub type R = (usize, usize);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TK {
    L,
    R,
    Str,
    Id,
    Word,
    Num,
    LineC,
    BlockC,
    Ws,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub k: TK,
    pub r: R,
}

pub fn idchar(c: char) -> bool {
    matches!(c, '0'..='9' | 'A'..='Z' | 'a'..='z' | '!' | '#' | '$' | '%' | '&' | '\'' | '*' | '+'
        | '-' | '.' | '/' | ':' | '<' | '=' | '>' | '?' | '@' | '\\' | '^' | '_' | '`' | '|' | '~')
}

/// All tokens including trivia, or `None` if the text isn't lexically well-formed.
pub fn lex(s: &str) -> Option<Vec<Tok>> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let st = i;
        match b[i] {
            b' ' | b'\t' | b'\r' | b'\n' => {
                while i < b.len() && matches!(b[i], b' ' | b'\t' | b'\r' | b'\n') {
                    i += 1;
                }
                out.push(Tok { k: TK::Ws, r: (st, i) });
            }
            b';' => {
                if b.get(i + 1) != Some(&b';') {
                    return None;
                }
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
                if i < b.len() && b[i] == b'\r' && b.get(i + 1) != Some(&b'\n') {
                    return None;
                }
                out.push(Tok { k: TK::LineC, r: (st, i) });
            }
            b'(' if b.get(i + 1) == Some(&b';') => {
                let mut d = 0;
                loop {
                    if i + 1 >= b.len() {
                        return None;
                    }
                    if b[i] == b'(' && b[i + 1] == b';' {
                        d += 1;
                        i += 2;
                    } else if b[i] == b';' && b[i + 1] == b')' {
                        d -= 1;
                        i += 2;
                        if d == 0 {
                            break;
                        }
                    } else {
                        i += 1;
                    }
                }
                out.push(Tok { k: TK::BlockC, r: (st, i) });
            }
            b'(' => {
                i += 1;
                out.push(Tok { k: TK::L, r: (st, i) });
            }
            b')' => {
                i += 1;
                out.push(Tok { k: TK::R, r: (st, i) });
            }
            b'"' => {
                i += 1;
                loop {
                    match b.get(i) {
                        None | Some(b'\n') | Some(b'\r') => return None,
                        Some(b'"') => {
                            i += 1;
                            break;
                        }
                        Some(b'\\') => {
                            i += 1;
                            match b.get(i) {
                                None => return None,
                                Some(b'u') => {
                                    i += 1;
                                    if b.get(i) != Some(&b'{') {
                                        return None;
                                    }
                                    i += 1;
                                    let h = i;
                                    while b.get(i).is_some_and(|c| c.is_ascii_hexdigit()) {
                                        i += 1;
                                    }
                                    if i == h || b.get(i) != Some(&b'}') {
                                        return None;
                                    }
                                    i += 1;
                                }
                                Some(b't' | b'n' | b'r' | b'"' | b'\'' | b'\\') => i += 1,
                                Some(c) if c.is_ascii_hexdigit()
                                    && b.get(i + 1).is_some_and(|c| c.is_ascii_hexdigit()) =>
                                {
                                    i += 2
                                }
                                _ => return None,
                            }
                        }
                        Some(_) => i += 1,
                    }
                }
                out.push(Tok { k: TK::Str, r: (st, i) });
            }
            c if idchar(c as char) => {
                while i < b.len() && idchar(b[i] as char) {
                    i += 1;
                }
                let t = &s[st..i];
                let k = match b[st] {
                    b'$' if t.len() > 1 => TK::Id,
                    b'0'..=b'9' | b'+' | b'-' => {
                        if !is_num(t) {
                            return None;
                        }
                        TK::Num
                    }
                    b'a'..=b'z' => {
                        if t == "inf" || t == "nan" || t.starts_with("nan:") {
                            if !is_num(t) {
                                return None;
                            }
                            TK::Num
                        } else {
                            if let Some(n) = t.strip_prefix("offset=").or_else(|| t.strip_prefix("align=")) {
                                if !is_uint(n) {
                                    return None;
                                }
                            }
                            TK::Word
                        }
                    }
                    _ => return None,
                };
                out.push(Tok { k, r: (st, i) });
            }
            _ => return None,
        }
    }
    // two tokens glued together (e.g. `"a"$b`) are left to the tests of the lexer
    for w in out.windows(2) {
        let atom = |t: &Tok| matches!(t.k, TK::Str | TK::Id | TK::Word | TK::Num);
        if atom(&w[0]) && atom(&w[1]) {
            return None;
        }
    }
    Some(out)
}

/// digit ('_'? digit)*
fn digits(t: &str, hex: bool) -> bool {
    let mut prev = false;
    for c in t.bytes() {
        let d = if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() };
        if !(d || c == b'_' && prev) {
            return false;
        }
        prev = d;
    }
    prev
}
fn index(t: &str) -> Option<u32> {
    let d = t.replace('_', "");
    match d.strip_prefix("0x") {
        Some(h) => u32::from_str_radix(h, 16).ok(),
        None => d.parse().ok(),
    }
}

pub fn is_uint(t: &str) -> bool {
    match t.strip_prefix("0x") {
        Some(h) => digits(h, true),
        None => digits(t, false),
    }
}

pub fn is_num(t: &str) -> bool {
    let t = t.strip_prefix(['+', '-']).unwrap_or(t);
    if is_uint(t) || t == "inf" || t == "nan" {
        return true;
    }
    if let Some(h) = t.strip_prefix("nan:0x") {
        return digits(h, true);
    }
    let (t, hex) = t.strip_prefix("0x").map_or((t, false), |h| (h, true));
    let (m, e) = match t.split_once(if hex { ['p', 'P'] } else { ['e', 'E'] }) {
        Some((m, e)) => (m, Some(e)),
        None => (t, None),
    };
    let m_ok = match m.split_once('.') {
        Some((a, b)) => digits(a, hex) && (b.is_empty() || digits(b, hex)),
        None => digits(m, hex),
    };
    m_ok && e.map_or(true, |e| digits(e.strip_prefix(['+', '-']).unwrap_or(e), false))
}

/// (text of tokens other than whitespace)
pub fn significant(s: &str) -> Option<Vec<&str>> {
    Some(lex(s)?.iter().filter(|t| t.k != TK::Ws).map(|t| &s[t.r.0..t.r.1]).collect())
}

#[derive(Clone, Debug)]
pub enum S {
    A(usize),
    L { l: usize, r: usize, items: Vec<S> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DK {
    Func,
    Param,
    Local,
    Type,
    Global,
    Memory,
    Table,
    Block,
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub k: DK,
    pub m: usize,
    /// enclosing function (its decl id) of params, locals and blocks
    pub f: Option<usize>,
    pub num: u32,
    pub name: Option<String>,
    pub name_r: Option<R>,
    /// further label tokens (after else/end)
    pub extra: Vec<R>,
    pub node: R,
    /// location shown to the user: name, or keyword, or the whole element
    pub loc: R,
    pub import: bool,
    /// declared by an import field, not by an inline import
    pub import_field: bool,
    /// value type text of param/local/global
    pub ty: Option<String>,
    pub mutable: bool,
    pub ty_r: Option<R>,
    /// function/type signature written inline
    pub sig: Option<Sig>,
    /// index into uses: the type index of a function
    pub type_use: Option<usize>,
    pub kw: R,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Sig {
    pub params: Vec<(Option<String>, String)>,
    pub results: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Use {
    pub k: DK,
    pub m: usize,
    pub f: Option<usize>,
    pub name: Option<String>,
    pub num: Option<u32>,
    pub r: R,
    /// enclosing blocks, innermost first (labels only)
    pub blocks: Vec<usize>,
    /// instruction the use belongs to (range), and its name
    pub instr: Option<R>,
    pub op: String,
}

#[derive(Clone, Debug)]
pub struct Instr {
    pub name: String,
    pub name_r: R,
    pub node: R,
    pub folded: bool,
    /// immediates: token index
    pub imm: Vec<usize>,
    /// ranges of all operand nodes in order; (range, is instruction)
    pub operands: Vec<(R, Option<usize>)>,
    pub block: bool,
    pub f: Option<usize>,
    pub m: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub src: String,
    pub toks: Vec<Tok>,
    pub modules: Vec<R>,
    pub decls: Vec<Decl>,
    pub uses: Vec<Use>,
    pub instrs: Vec<Instr>,
    /// direct instructions of a function or global body, in order
    pub bodies: Vec<(usize, Vec<usize>)>,
    /// every parenthesised construct and unfolded block
    pub constructs: Vec<R>,
    /// a type use next to empty groups only: which of them counts isn't specified
    pub odd: bool,
    /// (kind, type ranges, whole range, named, owner range)
    pub groups: Vec<Group>,
}

#[derive(Clone, Debug)]
pub struct Group {
    pub kw: String,
    pub types: Vec<String>,
    pub r: R,
    pub named: bool,
    /// consecutive groups of the same type use or function type share an owner
    pub owner: usize,
}

type Res<T> = Option<T>;

impl Model {
    pub fn build(src: &str) -> Option<Model> {
        let toks = lex(src)?;
        let mut stack: Vec<(usize, Vec<S>)> = vec![];
        let mut top: Vec<S> = vec![];
        for (i, t) in toks.iter().enumerate() {
            match t.k {
                TK::Ws | TK::LineC | TK::BlockC => {}
                TK::L => stack.push((i, std::mem::take(&mut top))),
                TK::R => {
                    let (l, outer) = stack.pop()?;
                    let items = std::mem::replace(&mut top, outer);
                    top.push(S::L { l, r: i, items });
                }
                _ => top.push(S::A(i)),
            }
        }
        if !stack.is_empty() {
            return None;
        }
        let mut m = Model {
            src: src.to_string(),
            toks,
            ..Default::default()
        };
        for s in &top {
            m.module(s)?;
        }
        Some(m)
    }

    pub fn text(&self, r: R) -> &str {
        &self.src[r.0..r.1]
    }
    fn t(&self, i: usize) -> &str {
        self.text(self.toks[i].r)
    }
    fn sr(&self, s: &S) -> R {
        match s {
            S::A(i) => self.toks[*i].r,
            S::L { l, r, .. } => (self.toks[*l].r.0, self.toks[*r].r.1),
        }
    }
    fn head<'a>(&self, s: &'a S) -> Res<(&str, &'a [S])> {
        match s {
            S::L { items, .. } => match items.first()? {
                S::A(i) if self.toks[*i].k == TK::Word => Some((self.t(*i), items)),
                _ => None,
            },
            _ => None,
        }
    }
    fn head_is(&self, s: &S, kw: &str) -> bool {
        self.head(s).is_some_and(|(h, _)| h == kw)
    }
    fn kind(&self, s: &S) -> Res<TK> {
        match s {
            S::A(i) => Some(self.toks[*i].k),
            _ => None,
        }
    }
    fn atom(&self, s: &S) -> Res<&str> {
        match s {
            S::A(i) => Some(self.t(*i)),
            _ => None,
        }
    }
    fn opt_id(&self, items: &[S], i: &mut usize) -> Res<(Option<String>, Option<R>)> {
        if let Some(s) = items.get(*i) {
            if self.kind(s) == Some(TK::Id) {
                *i += 1;
                return Some((Some(self.atom(s)?.to_string()), Some(self.sr(s))));
            }
        }
        Some((None, None))
    }

    fn module(&mut self, s: &S) -> Res<()> {
        let (h, items) = self.head(s)?;
        if h != "module" {
            return None;
        }
        let items = items.to_vec();
        let mi = self.modules.len();
        self.modules.push(self.sr(s));
        self.constructs.push(self.sr(s));
        let mut i = 1;
        self.opt_id(&items, &mut i)?;
        let mut id = 0;
        for f in &items[i..] {
            self.field(mi, f, &mut id)?;
        }
        Some(())
    }

    fn decl(&mut self, k: DK, m: usize, num: u32, name: (Option<String>, Option<R>), node: R, kw: R) -> usize {
        self.decls.push(Decl {
            k,
            m,
            f: None,
            num,
            name: name.0,
            name_r: name.1,
            extra: vec![],
            node,
            loc: name.1.unwrap_or(kw),
            import: false,
            import_field: false,
            ty: None,
            mutable: false,
            ty_r: None,
            sig: None,
            type_use: None,
            kw,
        });
        self.decls.len() - 1
    }

    fn valtype(&self, s: &S) -> Res<String> {
        let t = self.atom(s)?;
        matches!(t, "i32" | "i64" | "f32" | "f64" | "v128" | "funcref" | "externref").then(|| t.to_string())
    }

    /// `(param ..)`/`(result ..)`/`(local ..)` lists
    fn group(&mut self, s: &S, owner: usize) -> Res<(Option<(String, R)>, Vec<(String, R)>)> {
        let (kw, items) = self.head(s)?;
        let kw = kw.to_string();
        let items = items.to_vec();
        let mut i = 1;
        let name = if kw != "result" { self.opt_id(&items, &mut i)? } else { (None, None) };
        let mut tys = vec![];
        for s in &items[i..] {
            tys.push((self.valtype(s)?, self.sr(s)));
        }
        if name.0.is_some() && tys.len() != 1 {
            return None;
        }
        self.constructs.push(self.sr(s));
        self.groups.push(Group {
            kw,
            types: tys.iter().map(|t| t.0.clone()).collect(),
            r: self.sr(s),
            named: name.0.is_some(),
            owner,
        });
        Some((name.0.zip(name.1), tys))
    }

    /// Parses `(type x)? (param ..)* (result ..)*` starting at `i`; `func` receives the params.
    fn type_use(&mut self, m: usize, items: &[S], i: &mut usize, func: Option<usize>) -> Res<(Option<usize>, Sig, bool)> {
        let start = *i;
        let owner = items.get(start).map_or(0, |s| self.sr(s).0);
        let mut u = None;
        let mut sig = Sig::default();
        let mut idx = 0u32;
        let mut typed = false;
        if let Some(s) = items.get(*i) {
            if self.head_is(s, "type") {
                let (_, it) = self.head(s)?;
                let it = it.to_vec();
                if it.len() != 2 {
                    return None;
                }
                u = self.use_(DK::Type, m, None, &it[1], &[], None, "type")?;
                *i += 1;
                typed = true;
            }
        }
        while let Some(s) = items.get(*i) {
            if !self.head_is(s, "param") {
                break;
            }
            let (name, tys) = self.group(s, owner)?;
            for (ty, r) in &tys {
                sig.params.push((name.as_ref().map(|n| n.0.clone()), ty.clone()));
                if let Some(f) = func {
                    let node = self.sr(s);
                    let d = if let Some((n, nr)) = &name {
                        self.decl(DK::Param, m, idx, (Some(n.clone()), Some(*nr)), node, *r)
                    } else {
                        self.decl(DK::Param, m, idx, (None, None), *r, *r)
                    };
                    self.decls[d].f = Some(f);
                    self.decls[d].ty = Some(ty.clone());
                    self.decls[d].ty_r = Some(*r);
                }
                idx += 1;
            }
            *i += 1;
        }
        while let Some(s) = items.get(*i) {
            if !self.head_is(s, "result") {
                break;
            }
            let (_, tys) = self.group(s, owner)?;
            sig.results.extend(tys.into_iter().map(|t| t.0));
            *i += 1;
        }
        if typed {
            self.odd |= *i > start + 1 && sig.params.is_empty() && sig.results.is_empty();
            self.constructs.push((self.sr(&items[start]).0, self.sr(&items[*i - 1]).1));
        }
        Some((u, sig, *i > start))
    }

    #[allow(clippy::too_many_arguments)]
    fn use_(&mut self, k: DK, m: usize, f: Option<usize>, s: &S, blocks: &[usize], instr: Option<R>, op: &str) -> Res<Option<usize>> {
        let t = self.atom(s)?.to_string();
        let r = self.sr(s);
        let (name, num) = match self.kind(s)? {
            TK::Id => (Some(t), None),
            TK::Num if !t.starts_with('+') && (instr.is_some() || is_uint(&t)) => match index(&t) {
                Some(n) => (None, Some(n)),
                None => return Some(None),
            },
            TK::Num => return None,
            _ => return None,
        };
        self.uses.push(Use {
            k,
            m,
            f,
            name,
            num,
            r,
            blocks: blocks.to_vec(),
            instr,
            op: op.to_string(),
        });
        Some(Some(self.uses.len() - 1))
    }

    fn imexport(&mut self, items: &[S], i: &mut usize, func: bool) -> Res<bool> {
        let mut import = false;
        let mut seen = (false, false);
        while let Some(s) = items.get(*i) {
            let (n, is_import) = if self.head_is(s, "import") {
                (3, true)
            } else if self.head_is(s, "export") {
                (2, false)
            } else {
                break;
            };
            let (_, it) = self.head(s)?;
            if it.len() != n || it[1..].iter().any(|s| self.kind(s) != Some(TK::Str)) {
                return None;
            }
            if !func {
                // at most one of each, import first
                if is_import && (seen.0 || seen.1) || !is_import && seen.1 {
                    return None;
                }
            }
            if is_import {
                seen.0 = true;
                import = true;
            } else {
                seen.1 = true;
            }
            self.constructs.push(self.sr(s));
            *i += 1;
        }
        Some(import)
    }

    fn limits(&self, items: &[S], i: &mut usize) -> Res<()> {
        let uint = |s: &S| {
            self.kind(s) == Some(TK::Num)
                && self.atom(s).is_some_and(|t| t.bytes().next().is_some_and(|c| c.is_ascii_digit()))
        };
        if !uint(items.get(*i)?) {
            return None;
        }
        *i += 1;
        if items.get(*i).is_some_and(uint) {
            *i += 1;
        }
        if let Some(s) = items.get(*i) {
            if matches!(self.atom(s), Some("shared" | "unshared")) {
                *i += 1;
            }
        }
        Some(())
    }

    fn global_type(&mut self, s: &S) -> Res<(String, bool, R)> {
        if self.head_is(s, "mut") {
            let (_, it) = self.head(s)?;
            if it.len() != 2 {
                return None;
            }
            let ty = self.valtype(&it[1])?;
            let r = self.sr(&it[1]);
            self.constructs.push(self.sr(s));
            Some((ty, true, r))
        } else {
            Some((self.valtype(s)?, false, self.sr(s)))
        }
    }

    fn field(&mut self, m: usize, s: &S, id: &mut u32) -> Res<()> {
        let (h, items) = self.head(s)?;
        let h = h.to_string();
        let items = items.to_vec();
        let node = self.sr(s);
        let kw = self.sr(&items[0]);
        self.constructs.push(node);
        let mut i = 1;
        match h.as_str() {
            "func" => {
                let name = self.opt_id(&items, &mut i)?;
                let d = self.decl(DK::Func, m, *id, name, node, kw);
                *id += 1;
                self.decls[d].import = self.imexport(&items, &mut i, true)?;
                let (u, sig, some) = self.type_use(m, &items, &mut i, Some(d))?;
                self.decls[d].type_use = u;
                self.decls[d].sig = some.then_some(sig);
                let mut idx = self.decls.iter().filter(|x| x.k == DK::Param && x.f == Some(d)).count() as u32;
                while let Some(l) = items.get(i) {
                    if !self.head_is(l, "local") {
                        break;
                    }
                    let owner = self.sr(l).0;
                    let (name, tys) = self.group(l, owner)?;
                    for (ty, r) in &tys {
                        let ln = self.sr(l);
                        let x = if let Some((n, nr)) = &name {
                            self.decl(DK::Local, m, idx, (Some(n.clone()), Some(*nr)), ln, *r)
                        } else {
                            self.decl(DK::Local, m, idx, (None, None), *r, *r)
                        };
                        self.decls[x].f = Some(d);
                        self.decls[x].ty = Some(ty.clone());
                        self.decls[x].ty_r = Some(*r);
                        idx += 1;
                    }
                    i += 1;
                }
                let body = self.instrs_(m, Some(d), &items[i..], &[])?;
                self.bodies.push((d, body));
            }
            "type" => {
                let name = self.opt_id(&items, &mut i)?;
                let d = self.decl(DK::Type, m, *id, name, node, kw);
                *id += 1;
                if items.len() != i + 1 || !self.head_is(&items[i], "func") {
                    return None;
                }
                let (_, it) = self.head(&items[i])?;
                let it = it.to_vec();
                self.constructs.push(self.sr(&items[i]));
                if it.get(1).is_some_and(|s| self.head_is(s, "type")) {
                    return None;
                }
                let mut j = 1;
                let (_, sig, _) = self.type_use(m, &it, &mut j, None)?;
                if j != it.len() {
                    return None;
                }
                self.decls[d].sig = Some(sig);
            }
            "global" => {
                let name = self.opt_id(&items, &mut i)?;
                let d = self.decl(DK::Global, m, *id, name, node, kw);
                *id += 1;
                self.decls[d].import = self.imexport(&items, &mut i, false)?;
                let (ty, mutable, r) = self.global_type(items.get(i)?)?;
                self.decls[d].ty = Some(ty);
                self.decls[d].mutable = mutable;
                self.decls[d].ty_r = Some(r);
                i += 1;
                let body = self.instrs_(m, None, &items[i..], &[])?;
                self.bodies.push((d, body));
            }
            "memory" => {
                let name = self.opt_id(&items, &mut i)?;
                self.decl(DK::Memory, m, *id, name, node, kw);
                *id += 1;
                self.imexport(&items, &mut i, false)?;
                if self.head_is(items.get(i)?, "data") {
                    let (_, it) = self.head(&items[i])?;
                    if it[1..].iter().any(|s| self.kind(s) != Some(TK::Str)) {
                        return None;
                    }
                    self.constructs.push(self.sr(&items[i]));
                    i += 1;
                } else {
                    self.limits(&items, &mut i)?;
                }
                if i != items.len() {
                    return None;
                }
            }
            "table" => {
                let name = self.opt_id(&items, &mut i)?;
                self.decl(DK::Table, m, *id, name, node, kw);
                *id += 1;
                self.imexport(&items, &mut i, false)?;
                if matches!(self.atom(items.get(i)?), Some("funcref" | "externref")) {
                    i += 1;
                    let e = items.get(i)?;
                    if !self.head_is(e, "elem") {
                        return None;
                    }
                    let (_, it) = self.head(e)?;
                    let it = it.to_vec();
                    self.constructs.push(self.sr(e));
                    self.elem_items(m, &it[1..])?;
                    i += 1;
                } else {
                    self.limits(&items, &mut i)?;
                    if !matches!(self.atom(items.get(i)?), Some("funcref" | "externref")) {
                        return None;
                    }
                    i += 1;
                }
                if i != items.len() {
                    return None;
                }
            }
            "import" => {
                if items.len() != 4 || items[1..3].iter().any(|s| self.kind(s) != Some(TK::Str)) {
                    return None;
                }
                let (dh, it) = self.head(&items[3])?;
                let dh = dh.to_string();
                let it = it.to_vec();
                let node = self.sr(&items[3]);
                let kw = self.sr(&it[0]);
                self.constructs.push(node);
                let mut i = 1;
                let name = self.opt_id(&it, &mut i)?;
                let k = match dh.as_str() {
                    "func" => DK::Func,
                    "global" => DK::Global,
                    "memory" => DK::Memory,
                    "table" => DK::Table,
                    _ => return None,
                };
                let d = self.decl(k, m, *id, name, node, kw);
                self.decls[d].import = true;
                self.decls[d].import_field = true;
                *id += 1;
                match k {
                    DK::Func => {
                        let (u, sig, some) = self.type_use(m, &it, &mut i, None)?;
                        self.decls[d].type_use = u;
                        self.decls[d].sig = some.then_some(sig);
                    }
                    DK::Global => {
                        let (ty, mutable, r) = self.global_type(it.get(i)?)?;
                        self.decls[d].ty = Some(ty);
                        self.decls[d].mutable = mutable;
                        self.decls[d].ty_r = Some(r);
                        i += 1;
                    }
                    DK::Memory => self.limits(&it, &mut i)?,
                    _ => {
                        self.limits(&it, &mut i)?;
                        if !matches!(self.atom(it.get(i)?), Some("funcref" | "externref")) {
                            return None;
                        }
                        i += 1;
                    }
                }
                if i != it.len() {
                    return None;
                }
            }
            "export" => {
                if items.len() != 3 || self.kind(&items[1]) != Some(TK::Str) {
                    return None;
                }
                let (dh, it) = self.head(&items[2])?;
                let dh = dh.to_string();
                let it = it.to_vec();
                if it.len() != 2 {
                    return None;
                }
                self.constructs.push(self.sr(&items[2]));
                let k = match dh.as_str() {
                    "func" => DK::Func,
                    "memory" => DK::Memory,
                    "table" => DK::Table,
                    "global" => {
                        let t = self.atom(&it[1])?;
                        if !(self.kind(&it[1]) == Some(TK::Id) || is_uint(t)) {
                            return None;
                        }
                        return Some(());
                    }
                    _ => return None,
                };
                self.use_(k, m, None, &it[1], &[], None, "export")?;
            }
            "start" => {
                if items.len() != 2 {
                    return None;
                }
                self.use_(DK::Func, m, None, &items[1], &[], None, "start")?;
            }
            "data" => {
                self.opt_id(&items, &mut i)?;
                if items.get(i).is_some_and(|s| self.head_is(s, "memory")) {
                    let (_, it) = self.head(&items[i])?;
                    let it = it.to_vec();
                    if it.len() != 2 {
                        return None;
                    }
                    self.constructs.push(self.sr(&items[i]));
                    self.use_(DK::Memory, m, None, &it[1], &[], None, "memory")?;
                    i += 1;
                }
                if matches!(items.get(i), Some(S::L { .. })) {
                    self.offset(m, &items[i])?;
                    i += 1;
                }
                if items[i..].iter().any(|s| self.kind(s) != Some(TK::Str)) {
                    return None;
                }
            }
            "elem" => {
                self.opt_id(&items, &mut i)?;
                if items.get(i).is_some_and(|s| self.atom(s) == Some("declare")) {
                    i += 1;
                } else {
                    if items.get(i).is_some_and(|s| self.head_is(s, "table")) {
                        let (_, it) = self.head(&items[i])?;
                        if it.len() != 2 {
                            return None;
                        }
                        if !(self.kind(&it[1]) == Some(TK::Id) || is_uint(self.atom(&it[1])?)) {
                            return None;
                        }
                        self.constructs.push(self.sr(&items[i]));
                        i += 1;
                        if !matches!(items.get(i), Some(S::L { .. })) {
                            return None;
                        }
                    }
                    if matches!(items.get(i), Some(S::L { .. })) {
                        self.offset(m, &items[i])?;
                        i += 1;
                        if i == items.len() {
                            return Some(());
                        }
                    }
                }
                let first = items.get(i)?;
                match self.atom(first)? {
                    "func" => {
                        i += 1;
                        if items[i..].iter().any(|s| matches!(s, S::L { .. })) {
                            return None;
                        }
                        let st = self.sr(first).0;
                        let en = self.sr(&items[items.len() - 1]).1;
                        self.constructs.push((st, en));
                    }
                    "funcref" | "externref" => {
                        i += 1;
                        if items[i..].iter().any(|s| matches!(s, S::A(..))) {
                            return None;
                        }
                    }
                    _ => {}
                }
                self.elem_items(m, &items[i..])?;
            }
            _ => return None,
        }
        Some(())
    }

    fn elem_items(&mut self, m: usize, items: &[S]) -> Res<()> {
        let lists = items.iter().filter(|s| matches!(s, S::L { .. })).count();
        if lists != 0 && lists != items.len() {
            return None;
        }
        for s in items {
            match s {
                S::A(i) => {
                    if !(self.toks[*i].k == TK::Id || is_uint(self.t(*i))) {
                        return None;
                    }
                }
                S::L { .. } => {
                    if self.head_is(s, "item") {
                        let (_, it) = self.head(s)?;
                        let it = it.to_vec();
                        self.constructs.push(self.sr(s));
                        self.instrs_(m, None, &it[1..], &[])?;
                    } else {
                        self.instrs_(m, None, std::slice::from_ref(s), &[])?;
                    }
                }
            }
        }
        Some(())
    }

    fn offset(&mut self, m: usize, s: &S) -> Res<()> {
        if self.head_is(s, "offset") {
            let (_, it) = self.head(s)?;
            let it = it.to_vec();
            self.constructs.push(self.sr(s));
            self.instrs_(m, None, &it[1..], &[])?;
        } else {
            self.instrs_(m, None, std::slice::from_ref(s), &[])?;
        }
        Some(())
    }

    fn block_type(&mut self, m: usize, items: &[S], i: &mut usize) -> Res<()> {
        // a single `(result ..)` or a type use
        self.type_use(m, items, i, None)?;
        Some(())
    }

    fn new_block(&mut self, m: usize, f: Option<usize>, kw: R, name: (Option<String>, Option<R>)) -> usize {
        let d = self.decl(DK::Block, m, 0, name, kw, kw);
        self.decls[d].f = f;
        d
    }

    fn instrs_(&mut self, m: usize, f: Option<usize>, items: &[S], blocks: &[usize]) -> Res<Vec<usize>> {
        let mut i = 0;
        let mut out = vec![];
        while i < items.len() {
            out.push(self.instr(m, f, items, &mut i, blocks)?);
        }
        Some(out)
    }

    fn push_block_instr(&mut self, name: &str, name_r: R, node: R, folded: bool, f: Option<usize>, m: usize) -> usize {
        self.instrs.push(Instr {
            name: name.into(),
            name_r,
            node,
            folded,
            imm: vec![],
            operands: vec![],
            block: true,
            f,
            m,
        });
        self.constructs.push(node);
        self.instrs.len() - 1
    }

    fn instr(&mut self, m: usize, f: Option<usize>, items: &[S], i: &mut usize, blocks: &[usize]) -> Res<usize> {
        let s = &items[*i];
        match s {
            S::A(t) => {
                if self.toks[*t].k != TK::Word {
                    return None;
                }
                let name = self.t(*t).to_string();
                let kw = self.toks[*t].r;
                *i += 1;
                match name.as_str() {
                    "block" | "loop" | "if" => {
                        let id = self.opt_id(items, i)?;
                        let d = self.new_block(m, f, kw, id.clone());
                        self.block_type(m, items, i)?;
                        let mut inner = vec![d];
                        inner.extend_from_slice(blocks);
                        let mut seen_else = false;
                        let then_start = items.get(*i).map_or(0, |s| self.sr(s).0);
                        let _ = then_start;
                        loop {
                            let it = items.get(*i)?;
                            match self.atom(it) {
                                Some("end") => {
                                    let er = self.sr(it);
                                    *i += 1;
                                    let e = self.opt_id(items, i)?;
                                    let node = (kw.0, e.1.unwrap_or(er).1);
                                    if let Some(r) = e.1 {
                                        if e.0 != id.0 {
                                            return None;
                                        }
                                        self.decls[d].extra.push(r);
                                    }
                                    self.decls[d].node = node;
                                    return Some(self.push_block_instr(&name, kw, node, false, f, m));
                                }
                                Some("else") if name == "if" && !seen_else => {
                                    seen_else = true;
                                    let es = self.sr(it);
                                    *i += 1;
                                    let e = self.opt_id(items, i)?;
                                    if let Some(r) = e.1 {
                                        if e.0 != id.0 {
                                            return None;
                                        }
                                        self.decls[d].extra.push(r);
                                    }
                                    // extent of the else branch
                                    let mut last = e.1.unwrap_or(es).1;
                                    loop {
                                        let it = items.get(*i)?;
                                        if self.atom(it) == Some("end") {
                                            break;
                                        }
                                        if self.atom(it) == Some("else") {
                                            return None;
                                        }
                                        let k = self.instr(m, f, items, i, &inner)?;
                                        last = self.instrs[k].node.1;
                                    }
                                    self.constructs.push((es.0, last));
                                }
                                Some("else") => return None,
                                _ => {
                                    self.instr(m, f, items, i, &inner)?;
                                }
                            }
                        }
                    }
                    "end" | "else" | "then" => None,
                    _ => {
                        let mut ops = vec![];
                        let mut imm = vec![];
                        while let Some(s) = items.get(*i) {
                            match s {
                                S::A(t) => {
                                    let tx = self.t(*t);
                                    let ok = match self.toks[*t].k {
                                        TK::Word => {
                                            matches!(tx, "func" | "extern")
                                                || tx.starts_with("offset=")
                                                || tx.starts_with("align=")
                                        }
                                        _ => true,
                                    };
                                    if !ok {
                                        break;
                                    }
                                    ops.push((self.sr(s), None));
                                    imm.push(*t);
                                    *i += 1;
                                }
                                S::L { .. } if self.head_is(s, "type") => {
                                    let st = self.sr(s).0;
                                    self.type_use(m, items, i, None)?;
                                    ops.push(((st, self.sr(&items[*i - 1]).1), None));
                                }
                                _ => break,
                            }
                        }
                        let end = self.sr(&items[*i - 1]).1;
                        let node = (kw.0, end);
                        self.uses_of(m, f, &name, &imm, blocks, node)?;
                        self.instrs.push(Instr {
                            name,
                            name_r: kw,
                            node,
                            folded: false,
                            imm,
                            operands: ops,
                            block: false,
                            f,
                            m,
                        });
                        Some(self.instrs.len() - 1)
                    }
                }
            }
            S::L { items: its, .. } => {
                let node = self.sr(s);
                *i += 1;
                let its = its.clone();
                let (name, kw) = match its.first()? {
                    S::A(t) if self.toks[*t].k == TK::Word => (self.t(*t).to_string(), self.toks[*t].r),
                    _ => return None,
                };
                let mut j = 1;
                match name.as_str() {
                    "block" | "loop" => {
                        let id = self.opt_id(&its, &mut j)?;
                        let d = self.new_block(m, f, kw, id);
                        self.decls[d].node = node;
                        self.block_type(m, &its, &mut j)?;
                        let mut inner = vec![d];
                        inner.extend_from_slice(blocks);
                        self.instrs_(m, f, &its[j..], &inner)?;
                        Some(self.push_block_instr(&name, kw, node, true, f, m))
                    }
                    "if" => {
                        let id = self.opt_id(&its, &mut j)?;
                        let d = self.new_block(m, f, kw, id);
                        self.decls[d].node = node;
                        self.block_type(m, &its, &mut j)?;
                        let mut inner = vec![d];
                        inner.extend_from_slice(blocks);
                        while !self.head_is(its.get(j)?, "then") {
                            if self.head_is(&its[j], "else") {
                                return None;
                            }
                            self.instr(m, f, &its, &mut j, blocks)?;
                        }
                        let (_, th) = self.head(&its[j])?;
                        let th = th.to_vec();
                        self.constructs.push(self.sr(&its[j]));
                        self.instrs_(m, f, &th[1..], &inner)?;
                        j += 1;
                        if let Some(e) = its.get(j) {
                            if !self.head_is(e, "else") {
                                return None;
                            }
                            let (_, el) = self.head(e)?;
                            let el = el.to_vec();
                            self.constructs.push(self.sr(e));
                            self.instrs_(m, f, &el[1..], &inner)?;
                            j += 1;
                        }
                        if j != its.len() {
                            return None;
                        }
                        Some(self.push_block_instr(&name, kw, node, true, f, m))
                    }
                    "then" | "else" | "end" | "param" | "result" | "local" | "type" | "import" | "export"
                    | "item" | "offset" => None,
                    _ => {
                        let mut ops = vec![];
                        let mut imm = vec![];
                        while j < its.len() {
                            match &its[j] {
                                S::A(t) => {
                                    if self.toks[*t].k == TK::Word {
                                        let tx = self.t(*t);
                                        if !(matches!(tx, "func" | "extern")
                                            || tx.starts_with("offset=")
                                            || tx.starts_with("align="))
                                        {
                                            return None;
                                        }
                                    }
                                    ops.push((self.toks[*t].r, None));
                                    imm.push(*t);
                                    j += 1;
                                }
                                l if self.head_is(l, "type") => {
                                    let st = self.sr(l).0;
                                    self.type_use(m, &its, &mut j, None)?;
                                    ops.push(((st, self.sr(&its[j - 1]).1), None));
                                }
                                l => {
                                    let r = self.sr(l);
                                    let k = self.instr(m, f, &its, &mut j, blocks)?;
                                    ops.push((r, Some(k)));
                                }
                            }
                        }
                        self.uses_of(m, f, &name, &imm, blocks, node)?;
                        self.constructs.push(node);
                        self.instrs.push(Instr {
                            name,
                            name_r: kw,
                            node,
                            folded: true,
                            imm,
                            operands: ops,
                            block: false,
                            f,
                            m,
                        });
                        Some(self.instrs.len() - 1)
                    }
                }
            }
        }
    }

    fn uses_of(&mut self, m: usize, f: Option<usize>, name: &str, imm: &[usize], blocks: &[usize], node: R) -> Res<()> {
        let (k, n) = match name {
            "call" | "return_call" | "ref.func" => (DK::Func, 1),
            "local.get" | "local.set" | "local.tee" => (DK::Local, 1),
            "global.get" | "global.set" => (DK::Global, 1),
            "br" | "br_if" => (DK::Block, 1),
            "br_table" => (DK::Block, usize::MAX),
            "table.get" | "table.set" | "table.size" | "table.grow" | "table.fill" => (DK::Table, 1),
            "table.copy" => (DK::Table, 2),
            "table.init" => (DK::Table, usize::MAX - 1),
            _ => return Some(()),
        };
        if n < 3 && imm.len() > n {
            return None;
        }
        for (j, t) in imm.iter().enumerate() {
            // a single index is that of the element segment
            if name == "table.init" && (j > 0 || imm.len() < 2) {
                break;
            }
            if k == DK::Local && f.is_none() || k == DK::Block && blocks.is_empty() {
                continue;
            }
            if matches!(self.toks[*t].k, TK::Id | TK::Num) {
                self.use_(k, m, f, &S::A(*t), blocks, Some(node), name)?;
            }
        }
        Some(())
    }

    // ---- resolution ----

    pub fn matches(&self, u: &Use, d: &Decl) -> bool {
        match (&u.name, u.num) {
            (Some(n), _) => d.name.as_ref() == Some(n),
            (None, Some(n)) => d.num == n,
            _ => false,
        }
    }

    /// All declarations a use denotes.
    pub fn defs(&self, u: &Use) -> Vec<usize> {
        match u.k {
            DK::Block => {
                for (lvl, b) in u.blocks.iter().enumerate() {
                    let hit = match (&u.name, u.num) {
                        (Some(n), _) => self.decls[*b].name.as_ref() == Some(n),
                        (None, Some(n)) => n as usize == lvl,
                        _ => false,
                    };
                    if hit {
                        return vec![*b];
                    }
                }
                vec![]
            }
            DK::Local => self
                .decls
                .iter()
                .enumerate()
                .filter(|(_, d)| matches!(d.k, DK::Param | DK::Local) && d.f == u.f && self.matches(u, d))
                .map(|(i, _)| i)
                .take(1)
                .collect(),
            k => self
                .decls
                .iter()
                .enumerate()
                .filter(|(_, d)| d.k == k && d.m == u.m && self.matches(u, d))
                .map(|(i, _)| i)
                .collect(),
        }
    }

    /// Is another declaration of the same kind and scope indistinguishable by name?
    pub fn ambiguous(&self, d: &Decl) -> bool {
        d.name.is_some()
            && self
                .decls
                .iter()
                .filter(|o| {
                    o.name == d.name
                        && match d.k {
                            DK::Param | DK::Local => matches!(o.k, DK::Param | DK::Local) && o.f == d.f,
                            DK::Block => false,
                            k => o.k == k && o.m == d.m,
                        }
                })
                .count()
                > 1
    }

    /// Signature of a function declaration; `None` if it cannot be determined.
    pub fn func_sig(&self, d: &Decl) -> Option<Sig> {
        match (&d.sig, d.type_use) {
            (Some(sig), u) if !sig.params.is_empty() || !sig.results.is_empty() || u.is_none() => Some(sig.clone()),
            (_, Some(u)) => {
                let u = &self.uses[u];
                self.defs(u).first().and_then(|t| self.decls[*t].sig.clone())
            }
            _ => None,
        }
    }
}
