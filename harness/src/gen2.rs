//! Generators of documents on which the semantic properties say something:
//! names and indices mostly resolve, operands mostly have the right shape.
use crate::checks2::spec;
use crate::gen::{random_opts, Gen, Rng};

struct B<'a> {
    r: &'a mut Rng,
    t: Vec<String>,
    /// (kind, name, index) of the fields of the module
    fields: Vec<(char, Option<String>, usize)>,
    locals: Vec<Option<String>>,
    labels: Vec<Option<String>>,
    valid_only: usize,
}

const VT: &[&str] = &["i32", "i64", "f32", "f64"];

impl B<'_> {
    fn t(&mut self, s: &str) {
        for w in s.split(' ') {
            self.t.push(w.to_string());
        }
    }
    fn name(&mut self) -> String {
        format!("${}", self.r.pick(&["a", "b", "c", "d", "e", "f", "fo", "x.y", "z", "é"][..9].to_vec()))
    }
    fn opt(&mut self, pct: usize) -> Option<String> {
        if self.r.chance(pct) {
            Some(self.name())
        } else {
            None
        }
    }
    fn field_use(&mut self, k: char) -> String {
        if self.r.chance(self.valid_only) {
            let c: Vec<_> = self.fields.iter().filter(|f| f.0 == k).cloned().collect();
            if !c.is_empty() {
                let f = self.r.pick(&c).clone();
                return match f.1 {
                    Some(n) if self.r.chance(70) => n,
                    _ => f.2.to_string(),
                };
            }
        }
        if self.r.chance(50) {
            self.name()
        } else {
            self.r.below(6).to_string()
        }
    }
    fn pos_use(&mut self, labels: bool) -> String {
        if self.r.chance(self.valid_only) {
            let l = if labels { self.labels.clone() } else { self.locals.clone() };
            if !l.is_empty() {
                let i = self.r.below(l.len());
                let num = if labels { l.len() - 1 - i } else { i };
                return match &l[i] {
                    Some(n) if self.r.chance(70) => n.clone(),
                    _ => num.to_string(),
                };
            }
        }
        if self.r.chance(50) {
            self.name()
        } else {
            self.r.below(4).to_string()
        }
    }
    fn vt(&mut self) {
        let v = self.r.pick(VT).to_string();
        self.t(&v);
    }
    fn param(&mut self, kw: &str, local: bool) {
        self.t(&format!("( {kw}"));
        if kw != "result" && self.r.chance(60) {
            let n = self.name();
            self.t(&n);
            self.vt();
            if local {
                self.locals.push(Some(n));
            }
        } else {
            for _ in 0..self.r.below(3) {
                self.vt();
                if local {
                    self.locals.push(None);
                }
            }
        }
        self.t(")");
    }
    fn plain(&mut self) -> usize {
        match self.r.below(13) {
            0 | 1 => {
                let k = self.r.pick(&["call", "call", "call", "return_call", "ref.func"]).to_string();
                self.t(&k);
                let u = self.field_use('f');
                self.t(&u);
                1
            }
            2 | 3 | 4 => {
                let k = self.r.pick(&["local.get", "local.get", "local.set", "local.tee"]).to_string();
                self.t(&k);
                let u = self.pos_use(false);
                self.t(&u);
                usize::from(!k.ends_with("get"))
            }
            5 => {
                let k = self.r.pick(&["global.get", "global.set"]).to_string();
                self.t(&k);
                let u = self.field_use('g');
                self.t(&u);
                usize::from(k.ends_with("set"))
            }
            6 | 7 => {
                let k = self.r.pick(&["br", "br_if", "br_table"]).to_string();
                self.t(&k);
                for _ in 0..if k == "br_table" { 1 + self.r.below(3) } else { 1 } {
                    let u = self.pos_use(true);
                    self.t(&u);
                }
                1
            }
            8 => {
                let k = self.r.pick(&["table.get", "table.set", "table.size", "table.fill", "table.copy"]).to_string();
                self.t(&k);
                for _ in 0..if k == "table.copy" { 2 } else { 1 } {
                    let u = self.field_use('t');
                    self.t(&u);
                }
                1
            }
            9 => {
                self.t("call_indirect ( type");
                let u = self.field_use('y');
                self.t(&u);
                self.t(")");
                1
            }
            10 => {
                self.t("i32.const 1");
                0
            }
            11 => {
                self.t("i32.add");
                2
            }
            _ => {
                self.t("nop");
                0
            }
        }
    }
    fn block_type(&mut self) {
        match self.r.below(5) {
            0 => {
                self.t("( type");
                let u = self.field_use('y');
                self.t(&u);
                self.t(")");
            }
            1 => self.param("result", false),
            2 => self.param("param", false),
            _ => {}
        }
    }
    fn many(&mut self, d: usize) {
        for _ in 0..self.r.below(4) {
            self.instr(d);
        }
    }
    fn repeat_label(&mut self, l: &Option<String>) {
        if let Some(l) = l {
            if self.r.chance(40) {
                let l = l.clone();
                self.t(&l);
            }
        }
    }
    fn instr(&mut self, d: usize) {
        let k = self.r.below(9);
        if d == 0 || k < 5 {
            if self.r.chance(60) {
                self.t("(");
                let n = self.plain();
                if d > 0 {
                    for _ in 0..self.r.below(n + 1) {
                        self.folded(d - 1);
                    }
                }
                self.t(")");
            } else {
                self.plain();
            }
            return;
        }
        let l = self.opt(65);
        if k < 7 {
            let kw = self.r.pick(&["block", "loop"]).to_string();
            let folded = self.r.chance(50);
            if folded {
                self.t("(");
            }
            self.t(&kw);
            if let Some(l) = &l {
                self.t(&l.clone());
            }
            self.block_type();
            self.labels.push(l.clone());
            self.many(d - 1);
            self.labels.pop();
            if folded {
                self.t(")");
            } else {
                self.t("end");
                self.repeat_label(&l);
            }
        } else if k == 7 {
            self.t("( if");
            if let Some(l) = &l {
                self.t(&l.clone());
            }
            self.block_type();
            if self.r.chance(60) {
                self.folded(d - 1);
            }
            self.labels.push(l);
            self.t("( then");
            self.many(d - 1);
            self.t(")");
            if self.r.chance(60) {
                self.t("( else");
                self.many(d - 1);
                self.t(")");
            }
            self.labels.pop();
            self.t(")");
        } else {
            self.t("if");
            if let Some(l) = &l {
                self.t(&l.clone());
            }
            self.block_type();
            self.labels.push(l.clone());
            self.many(d - 1);
            if self.r.chance(60) {
                self.t("else");
                self.repeat_label(&l);
                self.many(d - 1);
            }
            self.labels.pop();
            self.t("end");
            self.repeat_label(&l);
        }
    }
    fn folded(&mut self, d: usize) {
        self.t("(");
        let n = self.plain();
        if d > 0 {
            for _ in 0..self.r.below(n + 1) {
                self.folded(d - 1);
            }
        }
        self.t(")");
    }
    fn module(&mut self) {
        self.fields.clear();
        self.t("( module");
        let n = 1 + self.r.below(6);
        let kinds: Vec<char> = (0..n)
            .map(|_| *self.r.pick(&['f', 'f', 'f', 'f', 'g', 'y', 't', 'm']))
            .collect();
        for (i, k) in kinds.iter().enumerate() {
            let name = self.opt(70);
            self.fields.push((*k, name, i));
        }
        for (k, name, _) in self.fields.clone() {
            match k {
                'f' => {
                    self.t("( func");
                    if let Some(n) = &name {
                        self.t(n);
                    }
                    self.locals.clear();
                    self.labels.clear();
                    if self.r.chance(20) {
                        self.t("( export \"e\" )");
                    }
                    if self.r.chance(20) {
                        self.t("( type");
                        let u = self.field_use('y');
                        self.t(&u);
                        self.t(")");
                    }
                    for _ in 0..self.r.below(3) {
                        self.param("param", true);
                    }
                    for _ in 0..self.r.below(2) {
                        self.param("result", false);
                    }
                    for _ in 0..self.r.below(3) {
                        self.param("local", true);
                    }
                    let d = 1 + self.r.below(3);
                    for _ in 0..self.r.below(6) {
                        self.instr(d);
                    }
                    self.t(")");
                }
                'g' => {
                    self.t("( global");
                    if let Some(n) = &name {
                        self.t(n);
                    }
                    if self.r.chance(40) {
                        self.t("( mut");
                        self.vt();
                        self.t(")");
                    } else {
                        self.vt();
                    }
                    if self.r.chance(30) {
                        self.t("( global.get");
                        let u = self.field_use('g');
                        self.t(&u);
                        self.t(")");
                    } else {
                        self.t("( i32.const 0 )");
                    }
                    self.t(")");
                }
                'y' => {
                    self.t("( type");
                    if let Some(n) = &name {
                        self.t(n);
                    }
                    self.t("( func");
                    for _ in 0..self.r.below(3) {
                        self.param("param", false);
                    }
                    for _ in 0..self.r.below(2) {
                        self.param("result", false);
                    }
                    self.t(") )");
                }
                't' => {
                    self.t("( table");
                    if let Some(n) = &name {
                        self.t(n);
                    }
                    self.t("1 funcref )");
                }
                _ => {
                    self.t("( memory");
                    if let Some(n) = &name {
                        self.t(n);
                    }
                    self.t("1 )");
                }
            }
        }
        if self.r.chance(25) {
            self.t("( export \"x\" ( func");
            let u = self.field_use('f');
            self.t(&u);
            self.t(") )");
        }
        if self.r.chance(15) {
            self.t("( start");
            let u = self.field_use('f');
            self.t(&u);
            self.t(")");
        }
        self.t(")");
    }
}

fn builder(r: &mut Rng, valid_only: usize) -> B<'_> {
    B { r, t: vec![], fields: vec![], locals: vec![], labels: vec![], valid_only }
}

fn render(r: &mut Rng, t: &[String]) -> String {
    let mut o = random_opts(r);
    if r.chance(70) {
        o.comments = 0;
    }
    let mut g = Gen::new(Rng(r.next()), o);
    g.render(t)
}

/// A module whose names and indices mostly resolve.
pub fn semantic_doc(r: &mut Rng) -> String {
    let v = *r.pick(&[100, 95, 85, 60]);
    let mut b = builder(r, v);
    b.module();
    if b.r.chance(12) {
        b.module();
    }
    let t = std::mem::take(&mut b.t);
    let s = render(r, &t);
    if r.chance(30) {
        // doc comments in front of fields
        let kw = *r.pick(&["(func", "(global", "(type", "(table"]);
        let c = *r.pick(&[";;; doc\n", ";;; one\n;;; two\n", ";;; x\n\n", ";;;y\n  "]);
        return s.replace(kw, &format!("\n{c}{kw}"));
    }
    s
}

fn literal(r: &mut Rng, ty: &str) -> String {
    match ty {
        "f32" | "f64" => r.pick(&["0.0", "1.5", "1", "-2", "nan", "inf"]).to_string(),
        _ => r.pick(&["0", "1", "-1", "0x1F"]).to_string(),
    }
}

struct Ty<'a> {
    r: &'a mut Rng,
    by_result: Vec<(&'static str, &'static crate::checks2::Spec)>,
    wrong: usize,
    locals: Vec<String>,
    globals: Vec<String>,
    /// the indices that resolve to the functions, and their signatures
    funcs: Vec<(usize, Vec<String>, Vec<String>)>,
}

impl Ty<'_> {
    fn imm(&mut self, name: &str, s: &crate::checks2::Spec) -> Option<String> {
        crate::checks2::gen_imm(self.r, name, s)
    }
    fn some_ty(&mut self) -> String {
        self.r.pick(&["i32", "i32", "i64", "f32", "f64", "v128", "funcref"]).to_string()
    }
    /// the head of an instruction with a result of type `ty`, with the types of its operands
    fn head(&mut self, ty: &str) -> (String, Vec<String>) {
        for _ in 0..6 {
            match self.r.below(8) {
                0 => {
                    let c: Vec<usize> = (0..self.locals.len()).filter(|i| self.locals[*i] == ty).collect();
                    if !c.is_empty() {
                        let i = *self.r.pick(&c);
                        return if self.r.chance(80) {
                            (format!("local.get {i}"), vec![])
                        } else {
                            (format!("local.tee {i}"), vec![ty.to_string()])
                        };
                    }
                }
                1 => {
                    let c: Vec<usize> = (0..self.globals.len()).filter(|i| self.globals[*i] == ty).collect();
                    if !c.is_empty() {
                        let i = *self.r.pick(&c);
                        return (format!("global.get $g{i}"), vec![]);
                    }
                }
                2 => {
                    let c: Vec<_> = self.funcs.iter().filter(|f| f.2 == [ty.to_string()]).cloned().collect();
                    if !c.is_empty() {
                        let f = self.r.pick(&c).clone();
                        let n = if self.r.chance(50) { f.0.to_string() } else { format!("$f{}", f.0) };
                        return (format!("call {n}"), f.1);
                    }
                }
                3 if VT.contains(&ty) => {
                    return (format!("{ty}.const {}", literal(self.r, ty)), vec![]);
                }
                _ => {
                    let c: Vec<_> = self
                        .by_result
                        .iter()
                        .filter(|(_, s)| s.results.len() == 1 && (s.results[0] == ty || s.results[0] == "*"))
                        .cloned()
                        .collect();
                    if !c.is_empty() {
                        let (n, s) = *self.r.pick(&c);
                        if let Some(i) = self.imm(n, s) {
                            let ps = s.params.iter().map(|p| if p == "*" { ty.to_string() } else { p.clone() });
                            return (if i.is_empty() { n.into() } else { format!("{n} {i}") }, ps.collect());
                        }
                    }
                }
            }
        }
        match ty {
            "v128" => ("v128.const i64x2 0 0".into(), vec![]),
            "funcref" => ("ref.null func".into(), vec![]),
            "externref" => ("ref.null extern".into(), vec![]),
            _ => (format!("{ty}.const {}", literal(self.r, ty)), vec![]),
        }
    }
    fn bend(&mut self, mut ps: Vec<String>) -> Vec<String> {
        if self.r.chance(self.wrong) {
            match self.r.below(3) {
                0 => {
                    ps.pop();
                }
                1 => {
                    let t = self.some_ty();
                    ps.push(t);
                }
                _ => {
                    if !ps.is_empty() {
                        let i = self.r.below(ps.len());
                        ps[i] = self.some_ty();
                    }
                }
            }
        }
        ps
    }
    fn folded(&mut self, ty: &str, d: usize) -> String {
        let (h, ps) = self.head(ty);
        let ps = self.bend(ps);
        let mut s = format!("({h}");
        for p in ps {
            s.push(' ');
            if d == 0 {
                s.push_str(&match p.as_str() {
                    "v128" => "(v128.const i64x2 0 0)".to_string(),
                    "funcref" => "(ref.null func)".to_string(),
                    "externref" => "(ref.null extern)".to_string(),
                    p if VT.contains(&p) => format!("({p}.const {})", literal(self.r, p)),
                    _ => "(nop)".to_string(),
                });
            } else {
                s.push_str(&self.folded(&p, d - 1));
            }
        }
        s.push(')');
        s
    }
    fn stacked(&mut self, ty: &str, d: usize, out: &mut Vec<String>) {
        if d == 0 || self.r.chance(25) {
            let f = self.folded(ty, 0);
            if self.r.chance(60) && !f[1..].contains('(') {
                out.push(f[1..f.len() - 1].to_string());
            } else {
                out.push(f);
            }
            return;
        }
        let (h, ps) = self.head(ty);
        for p in self.bend(ps) {
            self.stacked(&p, d - 1, out);
        }
        out.push(h);
    }
}

/// A module with straight-line code over all instructions, mostly well typed.
pub fn typed_doc(r: &mut Rng) -> String {
    let all: Vec<_> = spec().iter().map(|(k, v)| (k.as_str(), v)).collect();
    let wrong = *r.pick(&[0, 0, 3, 10, 25]);
    let mut g = Ty { r, by_result: all, wrong, locals: vec![], globals: vec![], funcs: vec![] };
    let mut s = String::from("(module");
    let nf = 1 + g.r.below(3);
    let ng = g.r.below(3);
    let mut sigs = vec![];
    for i in 0..nf {
        let ps: Vec<String> = (0..g.r.below(3)).map(|_| g.some_ty()).collect();
        let rs: Vec<String> = (0..g.r.below(3)).map(|_| g.some_ty()).collect();
        sigs.push((i, ps, rs));
    }
    g.funcs = sigs.clone();
    for _ in 0..ng {
        let t = g.some_ty();
        g.globals.push(t);
    }
    for (i, ps, rs) in sigs {
        g.locals = ps.clone();
        s.push_str(&format!("\n (func $f{i}"));
        let split = g.r.chance(40);
        for p in &ps {
            if split {
                s.push_str(&format!(" (param $p{} {p})", g.r.below(100)));
            } else {
                s.push_str(&format!(" (param {p})"));
            }
        }
        if !rs.is_empty() {
            s.push_str(&format!(" (result {})", rs.join(" ")));
        }
        for _ in 0..g.r.below(3) {
            let t = g.some_ty();
            s.push_str(&format!(" (local {t})"));
            g.locals.push(t);
        }
        for _ in 0..g.r.below(4) {
            s.push('\n');
            let ty = g.some_ty();
            let d = g.r.below(3);
            if g.r.chance(50) {
                let body = g.folded(&ty, d);
                match g.r.below(4) {
                    0 => s.push_str(&format!("(drop {body})")),
                    1 => {
                        let c: Vec<_> = g.by_result.iter().filter(|(_, s)| s.results.is_empty()).cloned().collect();
                        let (n, sp) = *g.r.pick(&c);
                        if let Some(im) = g.imm(n, sp) {
                            let ps = g.bend(sp.params.clone());
                            let mut f = format!("({n} {im}");
                            for p in ps {
                                f.push(' ');
                                let p = if p == "*" { "i32".to_string() } else { p };
                                f.push_str(&g.folded(&p, d));
                            }
                            f.push(')');
                            s.push_str(&f);
                        }
                    }
                    2 => {
                        let i = g.r.below(nf);
                        let (_, ps, _) = g.funcs[i].clone();
                        let mut f = format!("(call $f{i}");
                        for p in g.bend(ps) {
                            f.push(' ');
                            f.push_str(&g.folded(&p, d));
                        }
                        s.push_str(&f);
                        s.push(')');
                    }
                    _ => s.push_str(&body),
                }
            } else {
                let mut v = vec![];
                g.stacked(&ty, d, &mut v);
                s.push_str(&v.join(" "));
                if g.r.chance(50) {
                    s.push_str(" drop");
                }
            }
        }
        s.push(')');
    }
    for (i, t) in g.globals.clone().iter().enumerate() {
        let c = match t.as_str() {
            "v128" => "v128.const i64x2 0 0".to_string(),
            "funcref" => "ref.null func".to_string(),
            _ => format!("{t}.const 0"),
        };
        let t = if i % 2 == 1 { format!("(mut {t})") } else { t.clone() };
        s.push_str(&format!("\n (global $g{i} {t} ({c}))"));
    }
    s.push(')');
    s
}

const OPERANDS: &[&str] = &[
    "0", "1", "-1", "0x1F", "1.5", "nan", "inf", "$a", "$b", "func", "extern", "offset=4", "align=1", "1_0", "+2",
    "\"s\"", "(i32.const 0)", "(type 0)", "(result i32)",
];

/// Instructions with any kind of immediate operands; several modules.
pub fn operand_doc(r: &mut Rng) -> String {
    let names: Vec<&str> = spec().keys().map(|s| s.as_str()).collect();
    let mut s = String::new();
    for _ in 0..if r.chance(15) { 1 + r.below(3) } else { 1 } {
        s.push_str("(module (func");
        for _ in 0..1 + r.below(4) {
            let n = if r.chance(15) {
                *r.pick(&["call", "br", "br_if", "br_table", "call_indirect", "return_call", "local.get"])
            } else if r.chance(30) {
                *r.pick(&["i32.const", "i64.const", "f32.const", "f64.const", "ref.null", "table.get", "memory.init"])
            } else {
                *r.pick(&names)
            };
            let fold = r.chance(50);
            s.push_str(if fold { " (" } else { " " });
            s.push_str(n);
            let right = spec().get(n).filter(|_| r.clone().chance(50)).and_then(|sp| crate::checks2::gen_imm(r, n, sp));
            match right {
                Some(i) => {
                    s.push(' ');
                    s.push_str(&i);
                }
                None => {
                    for _ in 0..r.below(3) {
                        s.push(' ');
                        s.push_str(*r.pick(OPERANDS));
                    }
                }
            }
            if fold {
                s.push(')');
            }
        }
        s.push_str("))\n");
    }
    s
}

/// Groups of params, results and locals.
pub fn group_doc(r: &mut Rng) -> String {
    let mut s = String::from("(module ");
    for _ in 0..1 + r.below(2) {
        let ty = r.chance(30);
        s.push_str(if ty { "(type (func " } else { "(func " });
        for kw in if ty { &["param", "result"][..] } else { &["param", "result", "local"] } {
            for _ in 0..r.below(4) {
                s.push('(');
                s.push_str(kw);
                if *kw != "result" && r.chance(25) {
                    s.push_str(" $n ");
                    s.push_str(*r.pick(VT));
                } else {
                    for _ in 0..r.below(4) {
                        s.push_str(*r.pick(&[" ", "  ", " \n"]));
                        s.push_str(*r.pick(&["i32", "i64", "f32", "v128", "funcref"]));
                    }
                }
                s.push(')');
                s.push_str(*r.pick(&["", " ", "\n  ", " (; c ;) "]));
            }
        }
        s.push_str(if ty { "))" } else { ")" });
    }
    s.push(')');
    s
}

/// Memory arguments that are split in several tokens.
pub fn memarg_doc(r: &mut Rng) -> String {
    let mut s = String::from("(module (func ");
    for _ in 0..1 + r.below(3) {
        let n = r.pick(&["i32.load", "i64.store8", "f32.load", "v128.load", "i32.store"]).to_string();
        let fold = r.chance(60);
        if fold {
            s.push('(');
        }
        s.push_str(&n);
        for _ in 0..r.below(5) {
            s.push_str(*r.pick(&[" ", " ", "  ", "\n"]));
            s.push_str(*r.pick(&["offset=", "align=", "offset", "align", "=", "4", "0x10", "offset=4", "align=1"]));
        }
        if fold {
            s.push_str(" (i32.const 0))");
        }
        s.push(' ');
    }
    s.push_str("))");
    s
}

/// A small module in which most names matter: types, functions that use them, and uses of both.
/// All names have the same length, so that `touch` keeps every offset.
pub fn small_doc(r: &mut Rng) -> String {
    let vt = |r: &mut Rng| *r.pick(&["i32", "i64", "f32", "f64"]);
    let sig = |r: &mut Rng| {
        let mut s = String::new();
        for _ in 0..r.below(3) {
            s += &format!(" (param {})", vt(r));
        }
        if r.chance(40) {
            s += &format!(" (result {})", vt(r));
        }
        s
    };
    let tn = ["$a", "$b", "$c"];
    let fname = ["$f", "$g", "$h"];
    let nt = 2 + r.below(2);
    let nf = 1 + r.below(2);
    let mut fields: Vec<String> = vec![];
    for t in &tn[..nt] {
        fields.push(format!("(type {t} (func{}))", sig(r)));
    }
    let tidx = |r: &mut Rng| if r.chance(70) { tn[r.below(nt)].to_string() } else { r.below(nt).to_string() };
    let fidx = |r: &mut Rng| if r.chance(80) { fname[r.below(nf)].to_string() } else { r.below(nf).to_string() };
    for f in &fname[..nf] {
        match r.below(4) {
            0 => fields.push(format!("(import \"m\" \"n\" (func {f} (type {})))", tidx(r))),
            1 => fields.push(format!("(func {f}{})", sig(r))),
            _ => fields.push(format!("(func {f} (type {}))", tidx(r))),
        }
    }
    match r.below(4) {
        0 => fields.push(format!("(func (local $x i32) (local $y f64) (call {}) (local.get $x))", fidx(r))),
        1 => fields.push(format!("(global $x i32) (global $y f64) (func (call {} (global.get $x)))", fidx(r))),
        2 => fields.push(format!("(func (block (type {}) (call {})))", tidx(r), fidx(r))),
        _ => fields.push(format!("(func (call {}))", fidx(r))),
    }
    format!("(module {})", fields.join(if r.chance(50) { " " } else { "\n  " }))
}
