//! Deterministic generator of WAT documents: grammar-directed valid modules,
//! token- and character-level mutations of them, and raw character soup.

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

#[derive(Clone, Debug)]
pub struct GenOpts {
    /// percentage of gaps that receive a comment
    pub comments: usize,
    /// percentage of gaps that are multi-line
    pub newlines: usize,
    pub crlf: bool,
    pub non_ascii: bool,
    pub ignore: bool,
    /// names are drawn from a pool of this size (small pool: many clashes)
    pub names: usize,
    pub fields: usize,
    pub depth: usize,
    /// mean number of modules
    pub multi_modules: bool,
}

pub struct Gen {
    pub r: Rng,
    pub o: GenOpts,
    out: Vec<String>,
}

const UN: &[&str] = &[
    "i32.eqz", "i32.clz", "i64.eqz", "f32.abs", "f64.neg", "i32.wrap_i64", "drop",
    "f32.convert_i32_s", "memory.grow", "ref.is_null",
];
const BIN: &[&str] = &[
    "i32.add", "i32.sub", "i32.mul", "i64.add", "f32.add", "f64.mul", "i32.eq", "i64.lt_s",
    "f32.max", "i32x4.add",
];
const NUL: &[&str] = &["nop", "unreachable", "return", "memory.size"];
const MEM: &[&str] = &["i32.load", "i64.load", "i32.load8_s", "f32.load", "v128.load"];
const STORE: &[&str] = &["i32.store", "i64.store8", "f64.store"];
const VT: &[&str] = &["i32", "i64", "f32", "f64", "v128", "funcref", "externref"];

impl Gen {
    pub fn new(r: Rng, o: GenOpts) -> Self {
        Gen { r, o, out: vec![] }
    }
    fn t(&mut self, s: &str) {
        self.out.push(s.to_string());
    }
    fn open(&mut self, kw: &str) {
        self.t("(");
        self.t(kw);
    }
    fn close(&mut self) {
        self.t(")");
    }
    fn name(&mut self) -> String {
        let specials = ["$x.y", "$!#%&*+-./:<=>?@\\^_`|~$", "$longer-name_1", "$A"];
        let n = self.o.names.max(1);
        if self.r.chance(6) {
            self.r.pick(&specials).to_string()
        } else {
            format!("${}", (b'a' + (self.r.below(n) % 26) as u8) as char)
        }
    }
    fn opt_name(&mut self) {
        if self.r.chance(65) {
            let n = self.name();
            self.t(&n);
        }
    }
    fn idx(&mut self) -> String {
        if self.r.chance(60) {
            self.name()
        } else {
            let n = self.r.below(5);
            match self.r.below(12) {
                0 => format!("0x{n:x}"),
                1 => format!("0_{n}"),
                2 => format!("0x0_{n}"),
                _ => format!("{n}"),
            }
        }
    }
    /// digit ('_'? digit)*
    fn digits(&mut self, hex: bool) -> String {
        let set: &[&str] = if hex { &["0", "1", "9", "a", "f", "A", "F", "c"] } else { &["0", "1", "4", "9"] };
        let mut s = self.r.pick(set).to_string();
        for _ in 0..self.r.below(4) {
            if self.r.chance(30) {
                s.push('_');
            }
            s.push_str(*self.r.pick(set));
        }
        s
    }
    fn sign(&mut self) -> &'static str {
        *self.r.pick(&["", "", "+", "-"])
    }
    fn int(&mut self) -> String {
        if self.r.chance(30) {
            let hex = self.r.chance(40);
            let (s, d) = (self.sign(), self.digits(hex));
            return format!("{s}{}{d}", if hex { "0x" } else { "" });
        }
        self.r
            .pick(&["0", "1", "42", "-1", "+7", "0x1F", "-0xff", "1_000", "0x1_0", "4294967295"])
            .to_string()
    }
    fn float(&mut self) -> String {
        if self.r.chance(50) {
            let s = self.sign();
            return match self.r.below(8) {
                0 => format!("{s}nan:0x{}", self.digits(true)),
                1 => format!("{s}{}", self.r.pick(&["nan", "inf"])),
                _ => {
                    let hex = self.r.chance(50);
                    let mut x = format!("{s}{}{}", if hex { "0x" } else { "" }, self.digits(hex));
                    if self.r.chance(60) {
                        x.push('.');
                        if self.r.chance(70) {
                            x.push_str(&self.digits(hex));
                        }
                    }
                    if self.r.chance(50) {
                        x.push_str(if hex { *self.r.pick(&["p", "P"]) } else { *self.r.pick(&["e", "E"]) });
                        x.push_str(self.sign());
                        x.push_str(&self.digits(false));
                    }
                    x
                }
            };
        }
        self.r
            .pick(&[
                "0.0", "1.5", "-2.5e10", "inf", "-inf", "nan", "nan:0x1F", "0x1.8p3", "1.", "1e5",
                "+3.25E-2", "0x1p+2",
            ])
            .to_string()
    }
    fn string(&mut self) -> String {
        if self.o.non_ascii && self.r.chance(40) {
            return self.r.pick(&["\"é\"", "\"中文\"", "\"a😀b\""]).to_string();
        }
        if self.r.chance(30) {
            let mut s = String::from("\"");
            for _ in 0..self.r.below(5) {
                s.push_str(*self.r.pick(&[
                    "a", " ", "$", "(", ")", ";;", "(;", ";)", "'", "\\t", "\\n", "\\r", "\\\"", "\\'", "\\\\",
                    "\\00", "\\7f", "\\aB", "\\u{0}", "\\u{10fFfF}", "\\u{d7ff}",
                ]));
            }
            s.push('"');
            return s;
        }
        self.r
            .pick(&[
                "\"\"", "\"a\"", "\"mem\"", "\"\\00\\ff\"", "\"\\u{1F600}\"", "\"x y\"", "\"\\\"q\\\"\"",
                "\"tab\\t\"", "\"(;\"", "\";;\"", "\")\"",
            ])
            .to_string()
    }
    fn vt(&mut self) {
        let v = if self.r.chance(80) { &VT[..4] } else { VT };
        let s = self.r.pick(v).to_string();
        self.t(&s);
    }
    fn params(&mut self, kw: &str, named_ok: bool) {
        self.open(kw);
        if named_ok && self.r.chance(55) {
            let n = self.name();
            self.t(&n);
            self.vt();
        } else {
            for _ in 0..self.r.below(4) {
                self.vt();
            }
        }
        self.close();
    }
    fn type_use(&mut self) {
        if self.r.chance(35) {
            self.open("type");
            let i = self.idx();
            self.t(&i);
            self.close();
        }
        for _ in 0..self.r.below(3) {
            self.params("param", true);
        }
        for _ in 0..self.r.below(2) {
            self.params("result", false);
        }
    }
    fn func_type(&mut self) {
        self.open("func");
        for _ in 0..self.r.below(3) {
            self.params("param", true);
        }
        for _ in 0..self.r.below(3) {
            self.params("result", false);
        }
        self.close();
    }
    fn limits(&mut self) {
        let a = self.r.pick(&["0", "1", "16", "0x10"]).to_string();
        self.t(&a);
        if self.r.chance(40) {
            let a = self.r.pick(&["2", "100"]).to_string();
            self.t(&a);
            if self.r.chance(20) {
                self.t("shared");
            }
        }
    }
    fn ref_type(&mut self) {
        let s = self.r.pick(&["funcref", "externref"]).to_string();
        self.t(&s);
    }
    fn table_type(&mut self) {
        self.limits();
        self.ref_type();
    }
    fn global_type(&mut self) {
        if self.r.chance(50) {
            self.vt();
        } else {
            self.open("mut");
            self.vt();
            self.close();
        }
    }
    fn plain_head(&mut self) -> usize {
        // pushes instruction name + immediates; returns the number of folded operands it may take
        match self.r.below(12) {
            0 | 1 => {
                let s = self.r.pick(UN).to_string();
                self.t(&s);
                1
            }
            2 | 3 => {
                let s = self.r.pick(BIN).to_string();
                self.t(&s);
                2
            }
            4 => {
                let s = self.r.pick(NUL).to_string();
                self.t(&s);
                0
            }
            5 => {
                let s = self.r.pick(if self.r.clone().chance(50) { MEM } else { STORE }).to_string();
                self.t(&s);
                if self.r.chance(50) {
                    let s = self.r.pick(&["offset=0", "offset=0x10", "offset=4"]).to_string();
                    self.t(&s);
                }
                if self.r.chance(40) {
                    let s = self.r.pick(&["align=1", "align=4"]).to_string();
                    self.t(&s);
                }
                1
            }
            6 => {
                let (k, v) = if self.r.chance(60) {
                    (self.r.pick(&["i32.const", "i64.const"]).to_string(), self.int())
                } else {
                    (self.r.pick(&["f32.const", "f64.const"]).to_string(), self.float())
                };
                self.t(&k);
                self.t(&v);
                0
            }
            7 | 8 => {
                let k = self
                    .r
                    .pick(&["local.get", "local.set", "local.tee", "global.get", "global.set"])
                    .to_string();
                self.t(&k);
                let i = self.idx();
                self.t(&i);
                if k.ends_with("get") {
                    0
                } else {
                    1
                }
            }
            9 => {
                let k = self.r.pick(&["call", "call", "ref.func", "return_call"]).to_string();
                self.t(&k);
                let i = self.idx();
                self.t(&i);
                2
            }
            10 => {
                let k = self.r.pick(&["br", "br_if", "br_table"]).to_string();
                self.t(&k);
                let n = if k == "br_table" { 1 + self.r.below(3) } else { 1 };
                for _ in 0..n {
                    let i = self.idx();
                    self.t(&i);
                }
                1
            }
            _ => match self.r.below(3) {
                0 => {
                    let k = self
                        .r
                        .pick(&["table.get", "table.set", "table.size", "table.grow", "table.fill"])
                        .to_string();
                    self.t(&k);
                    let i = self.idx();
                    self.t(&i);
                    1
                }
                1 => {
                    let k = self.r.pick(&["table.copy", "table.init"]).to_string();
                    self.t(&k);
                    let i = self.idx();
                    self.t(&i);
                    if k == "table.copy" || self.r.chance(60) {
                        let i = self.idx();
                        self.t(&i);
                    }
                    1
                }
                _ => {
                    if self.r.chance(50) {
                        self.t("call_indirect");
                        if self.r.chance(40) {
                            let i = self.idx();
                            self.t(&i);
                        }
                        self.open("type");
                        let i = self.idx();
                        self.t(&i);
                        self.close();
                        1
                    } else {
                        self.t("ref.null");
                        let s = self.r.pick(&["func", "extern"]).to_string();
                        self.t(&s);
                        0
                    }
                }
            },
        }
    }
    fn block_type(&mut self) {
        match self.r.below(4) {
            0 => self.params("result", false),
            1 => {
                self.open("type");
                let i = self.idx();
                self.t(&i);
                self.close();
                if self.r.chance(30) {
                    self.params("param", true);
                }
            }
            2 => {
                self.params("param", true);
                if self.r.chance(50) {
                    self.params("result", false);
                }
            }
            _ => {}
        }
    }
    fn instr(&mut self, d: usize) {
        let k = self.r.below(10);
        if d > 0 && k < 2 {
            // folded block
            let kw = self.r.pick(&["block", "loop"]).to_string();
            self.open(&kw);
            self.opt_name();
            self.block_type();
            for _ in 0..self.r.below(3) {
                self.instr(d - 1);
            }
            self.close();
        } else if d > 0 && k == 2 {
            let kw = self.r.pick(&["block", "loop"]).to_string();
            self.t(&kw);
            self.opt_name();
            self.block_type();
            for _ in 0..self.r.below(3) {
                self.instr(d - 1);
            }
            self.t("end");
            if self.r.chance(20) {
                self.opt_name();
            }
        } else if d > 0 && k == 3 {
            self.open("if");
            self.opt_name();
            self.block_type();
            for _ in 0..self.r.below(2) {
                self.folded(d - 1);
            }
            self.open("then");
            for _ in 0..self.r.below(3) {
                self.instr(d - 1);
            }
            self.close();
            if self.r.chance(50) {
                self.open("else");
                for _ in 0..self.r.below(3) {
                    self.instr(d - 1);
                }
                self.close();
            }
            self.close();
        } else if d > 0 && k == 4 {
            self.t("if");
            self.opt_name();
            self.block_type();
            for _ in 0..self.r.below(3) {
                self.instr(d - 1);
            }
            if self.r.chance(50) {
                self.t("else");
                if self.r.chance(20) {
                    self.opt_name();
                }
                for _ in 0..self.r.below(3) {
                    self.instr(d - 1);
                }
            }
            self.t("end");
            if self.r.chance(20) {
                self.opt_name();
            }
        } else if k < 8 {
            self.folded(d)
        } else {
            self.plain_head();
        }
    }
    fn folded(&mut self, d: usize) {
        self.t("(");
        let n = self.plain_head();
        if d > 0 {
            for _ in 0..self.r.below(n + 1) {
                self.folded(d - 1);
            }
        }
        self.close();
    }
    fn import_export(&mut self, import_ok: bool) {
        self.imports_exports(import_ok as usize, 1)
    }
    fn imports_exports(&mut self, imports: usize, exports: usize) {
        for _ in 0..imports {
            if !self.r.chance(15) {
                continue;
            }
            self.open("import");
            let s = self.string();
            self.t(&s);
            let s = self.string();
            self.t(&s);
            self.close();
        }
        for _ in 0..exports {
            if !self.r.chance(25) {
                continue;
            }
            self.open("export");
            let s = self.string();
            self.t(&s);
            self.close();
        }
    }
    fn elem_list(&mut self) {
        match self.r.below(3) {
            0 => {
                self.t("func");
                for _ in 0..self.r.below(4) {
                    let i = self.idx();
                    self.t(&i);
                }
            }
            1 => {
                self.ref_type();
                for _ in 0..self.r.below(3) {
                    self.elem_expr();
                }
            }
            _ => {
                self.t("0");
                for _ in 0..self.r.below(3) {
                    let i = self.idx();
                    self.t(&i);
                }
            }
        }
    }
    fn elem_expr(&mut self) {
        if self.r.chance(50) {
            self.open("item");
            for _ in 0..self.r.below(3) {
                self.instr(1);
            }
            self.close();
        } else {
            self.folded(1);
        }
    }
    fn offset(&mut self) {
        if self.r.chance(50) {
            self.open("offset");
            for _ in 0..self.r.below(3) {
                self.instr(1);
            }
            self.close();
        } else {
            self.folded(1);
        }
    }
    pub fn field(&mut self) {
        let d = self.o.depth;
        match self.r.below(14) {
            0..=4 => {
                self.open("func");
                self.opt_name();
                self.imports_exports(2, 3);
                self.type_use();
                for _ in 0..self.r.below(3) {
                    self.params("local", true);
                }
                for _ in 0..self.r.below(5) {
                    self.instr(d);
                }
                self.close();
            }
            5 => {
                self.open("type");
                self.opt_name();
                self.func_type();
                self.close();
            }
            6 => {
                self.open("export");
                let s = self.string();
                self.t(&s);
                let k = self.r.pick(&["func", "table", "memory", "global"]).to_string();
                self.open(&k);
                let i = self.idx();
                self.t(&i);
                self.close();
                self.close();
            }
            7 => {
                self.open("import");
                let s = self.string();
                self.t(&s);
                let s = self.string();
                self.t(&s);
                let k = self.r.pick(&["func", "table", "memory", "global"]).to_string();
                self.open(&k);
                self.opt_name();
                match &*k {
                    "func" => self.type_use(),
                    "table" => self.table_type(),
                    "memory" => self.limits(),
                    _ => self.global_type(),
                }
                self.close();
                self.close();
            }
            8 => {
                self.open("start");
                let i = self.idx();
                self.t(&i);
                self.close();
            }
            9 => {
                self.open("data");
                self.opt_name();
                if self.r.chance(30) {
                    self.open("memory");
                    let i = self.idx();
                    self.t(&i);
                    self.close();
                }
                if self.r.chance(60) {
                    self.offset();
                }
                for _ in 0..self.r.below(3) {
                    let s = self.string();
                    self.t(&s);
                }
                self.close();
            }
            10 => {
                self.open("table");
                self.opt_name();
                self.import_export(true);
                if self.r.chance(40) {
                    self.ref_type();
                    self.open("elem");
                    if self.r.chance(50) {
                        for _ in 0..self.r.below(3) {
                            self.elem_expr();
                        }
                    } else {
                        for _ in 0..self.r.below(4) {
                            let i = self.idx();
                            self.t(&i);
                        }
                    }
                    self.close();
                } else {
                    self.table_type();
                }
                self.close();
            }
            11 => {
                self.open("memory");
                self.opt_name();
                self.import_export(true);
                if self.r.chance(30) {
                    self.open("data");
                    for _ in 0..self.r.below(3) {
                        let s = self.string();
                        self.t(&s);
                    }
                    self.close();
                } else {
                    self.limits();
                }
                self.close();
            }
            12 => {
                self.open("global");
                self.opt_name();
                self.import_export(true);
                self.global_type();
                for _ in 0..self.r.below(2) {
                    self.instr(1);
                }
                self.close();
            }
            _ => {
                self.open("elem");
                self.opt_name();
                match self.r.below(3) {
                    0 => {
                        self.t("declare");
                        self.elem_list();
                    }
                    1 => self.elem_list(),
                    _ => {
                        if self.r.chance(40) {
                            self.open("table");
                            let i = self.idx();
                            self.t(&i);
                            self.close();
                        }
                        self.offset();
                        if self.r.chance(70) {
                            self.elem_list();
                        }
                    }
                }
                self.close();
            }
        }
    }
    pub fn tokens(&mut self) -> Vec<String> {
        self.out.clear();
        let n = if self.o.multi_modules && self.r.chance(25) { 2 } else { 1 };
        for _ in 0..n {
            self.open("module");
            if self.r.chance(15) {
                self.opt_name();
            }
            for _ in 0..self.r.below(self.o.fields + 1) {
                self.field();
            }
            self.close();
        }
        std::mem::take(&mut self.out)
    }
    fn comment(&mut self) -> String {
        let nl = if self.o.crlf { "\r\n" } else { "\n" };
        if self.o.non_ascii && self.r.chance(30) {
            return self.r.pick(&["(; é ;)", "(;中;)"]).to_string();
        }
        if self.o.ignore && self.r.chance(12) {
            return format!(";; fmt-ignore{nl}");
        }
        match self.r.below(9) {
            0 => format!(";; c{nl}"),
            1 => format!(";;x{nl}"),
            2 => format!(";;{nl}"),
            3 => "(;;)".into(),
            4 => "(; b ;)".into(),
            5 => "(;x;)".into(),
            6 => format!("(; m{nl} l ;)"),
            7 => "(; a (; n ;) ;)".into(),
            _ => format!(";; ) ({nl}"),
        }
    }
    fn gap(&mut self, need: bool) -> String {
        let mut s = String::new();
        let nl = if self.o.crlf { "\r\n" } else { "\n" };
        if self.r.chance(self.o.newlines) {
            s.push_str(nl);
            if self.r.chance(25) {
                s.push_str(nl);
            }
            for _ in 0..self.r.below(4) {
                s.push(' ');
            }
        } else if need || self.r.chance(15) {
            let w: &&str = self.r.pick(&[" ", " ", " ", "  ", "\t"]);
            s.push_str(w);
        }
        if self.r.chance(self.o.comments) {
            if need && s.is_empty() {
                s.push(' ');
            }
            let c = self.comment();
            s.push_str(&c);
            if self.r.chance(70) {
                let w: &&str = self.r.pick(&[" ", "\n", "\n\n", "\n  "]);
                s.push_str(w);
            }
            if self.r.chance(20) {
                let c = self.comment();
                s.push_str(&c);
            }
        }
        s
    }
    pub fn render(&mut self, toks: &[String]) -> String {
        let mut s = String::new();
        let lead = self.gap(false);
        s.push_str(&lead);
        for (i, t) in toks.iter().enumerate() {
            if i > 0 {
                let p = &toks[i - 1];
                let need = p != "(" && t != ")" && !(p == ")" || t == "(")
                    || (self.r.chance(60) && p != "(" && t != ")");
                let mut g = self.gap(need);
                if g.starts_with(';') {
                    g.insert(0, ' ');
                }
                if need && g.is_empty() {
                    g.push(' ');
                }
                s.push_str(&g);
            }
            s.push_str(t);
        }
        let tail = self.gap(false);
        s.push_str(&tail);
        s
    }
    pub fn document(&mut self) -> String {
        let t = self.tokens();
        self.render(&t)
    }
}

pub fn random_opts(r: &mut Rng) -> GenOpts {
    GenOpts {
        comments: *r.pick(&[0, 0, 4, 15, 40]),
        newlines: *r.pick(&[0, 10, 30, 60]),
        crlf: r.chance(10),
        non_ascii: r.chance(20),
        ignore: r.chance(20),
        names: *r.pick(&[1, 2, 3, 5, 12]),
        fields: *r.pick(&[1, 2, 3, 5, 8]),
        depth: *r.pick(&[0, 1, 2, 2, 3]),
        multi_modules: r.chance(15),
    }
}

/// A document that is syntactically valid by construction.
pub fn valid_doc(r: &mut Rng) -> String {
    let o = random_opts(r);
    let mut g = Gen::new(Rng(r.next()), o);
    g.document()
}

const SOUP: &[&str] = &[
    "(", ")", "\"", "\\", ";", "=", "$", "$a", " ", "\n", "\r\n", "\t", ",", "[", "{", "}", "'", "é", "中", "😀",
    "(;", ";)", ";;", "\"a\"", "\"\\u{41}\"", "\"\\u{", "module", "func", "param", "i32", "end",
    "then", "else", "if", "block", "loop", "i32.add", "0", "0x", "1_", "nan", "inf", "-", "offset=", "align=4",
    "offset", "mut", "local", "result", "type", "import", "export", "\u{0}", "\u{7f}", "@", "i32.const", "call",
    "\u{b}", "\u{85}", "\u{2028}", "\u{feff}", "\r",
];

pub fn mutate(r: &mut Rng, src: &str) -> String {
    let mut s: Vec<char> = src.chars().collect();
    let n = 1 + r.below(4);
    for _ in 0..n {
        let len = s.len();
        match r.below(7) {
            0 => {
                if len > 0 {
                    let i = r.below(len);
                    s.remove(i);
                }
            }
            1 => {
                let i = r.below(len + 1);
                let ins: Vec<char> = r.pick(SOUP).chars().collect();
                s.splice(i..i, ins);
            }
            2 => {
                if len > 0 {
                    let i = r.below(len);
                    let c = r.pick(SOUP).chars().next().unwrap();
                    s[i] = c;
                }
            }
            3 => {
                if len > 1 {
                    let i = r.below(len);
                    let j = (i + 1 + r.below(8)).min(len);
                    s.drain(i..j);
                }
            }
            4 => {
                if len > 1 {
                    let i = r.below(len);
                    let j = (i + 1 + r.below(12)).min(len);
                    let part: Vec<char> = s[i..j].to_vec();
                    let k = r.below(s.len() + 1);
                    s.splice(k..k, part);
                }
            }
            5 => {
                // delete one parenthesis
                let ps: Vec<usize> = s
                    .iter()
                    .enumerate()
                    .filter(|(_, c)| **c == '(' || **c == ')')
                    .map(|(i, _)| i)
                    .collect();
                if !ps.is_empty() {
                    let i = *r.pick(&ps);
                    s.remove(i);
                }
            }
            _ => {
                let k = r.below(len + 1);
                s.truncate(k.max(len / 2));
            }
        }
    }
    s.into_iter().collect()
}

pub fn soup(r: &mut Rng) -> String {
    let n = r.below(24);
    (0..n).map(|_| *r.pick(SOUP)).collect()
}

/// Any document at all.
pub fn any_doc(r: &mut Rng) -> String {
    match r.below(10) {
        0..=3 => valid_doc(r),
        4..=7 => {
            let d = valid_doc(r);
            mutate(r, &d)
        }
        8 => {
            let d = soup(r);
            format!("(module {d})")
        }
        _ => soup(r),
    }
}

/// Small edits that leave the layout alone: words of the same length trade places or replace each
/// other, so that all offsets stay what they were.
pub fn touch(r: &mut Rng, src: &str) -> String {
    let b = src.as_bytes();
    let mut words: Vec<(usize, usize)> = vec![];
    let mut i = 0;
    while i < b.len() {
        let w = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'$' | b'_' | b'.');
        if w(b[i]) {
            let s = i;
            while i < b.len() && w(b[i]) {
                i += 1;
            }
            words.push((s, i));
        } else {
            i += 1;
        }
    }
    if words.is_empty() {
        return src.to_string();
    }
    let mut out = src.to_string();
    for _ in 0..1 + r.below(2) {
        let (s, e) = *r.pick(&words);
        let same: Vec<(usize, usize)> = words
            .iter()
            .copied()
            .filter(|(x, y)| y - x == e - s && out[*x..*y] != out[s..e] && (b[*x] == b'$') == (b[s] == b'$'))
            .collect();
        let old = out[s..e].to_string();
        if !same.is_empty() && r.chance(75) {
            let (x, y) = *r.pick(&same);
            let new = out[x..y].to_string();
            out.replace_range(s..e, &new);
            if r.chance(60) {
                out.replace_range(x..y, &old);
            }
        } else if let Some(n) = match old.as_str() {
            "i32" => Some("f64"),
            "i64" => Some("i32"),
            "f32" => Some("i64"),
            "f64" => Some("f32"),
            "0" => Some("1"),
            "1" => Some("0"),
            "2" => Some("1"),
            "param" => None,
            _ if old.starts_with('$') && old.len() == 2 => Some("$z"),
            _ => None,
        } {
            out.replace_range(s..e, n);
        }
    }
    out
}
