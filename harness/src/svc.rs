//! The real language service behind a JSON interface, plus an independent UTF-16 line map.
use crate::model::R;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use wat_service::LanguageService;

pub struct LineMap {
    src: String,
    starts: Vec<usize>,
}
impl LineMap {
    pub fn new(src: &str) -> Self {
        let mut starts = vec![0];
        starts.extend(src.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1));
        LineMap { src: src.to_string(), starts }
    }
    pub fn pos(&self, o: usize) -> (u32, u32) {
        let l = self.starts.partition_point(|s| *s <= o) - 1;
        let c = self.src[self.starts[l]..o].chars().map(char::len_utf16).sum::<usize>();
        (l as u32, c as u32)
    }
    pub fn lines(&self) -> usize {
        self.starts.len()
    }
    pub fn line_range(&self, l: usize) -> R {
        (self.starts[l], self.starts.get(l + 1).copied().unwrap_or(self.src.len()))
    }
    /// exact inverse; `None` if the position isn't a character boundary of the document
    pub fn offset(&self, l: u32, c: u32) -> Option<usize> {
        let (s, e) = (*self.starts.get(l as usize)?, self.line_range(l as usize).1);
        let mut n = 0;
        for (i, ch) in self.src[s..e].char_indices() {
            if n == c as usize {
                return Some(s + i);
            }
            n += ch.len_utf16();
        }
        (n == c as usize).then_some(e)
    }
    pub fn jpos(&self, o: usize) -> Value {
        let (l, c) = self.pos(o);
        json!({"line": l, "character": c})
    }
    pub fn jrange(&self, r: R) -> Value {
        json!({"start": self.jpos(r.0), "end": self.jpos(r.1)})
    }
    /// byte range of an LSP range
    pub fn range(&self, v: &Value) -> Option<R> {
        let p = |v: &Value| self.offset(v["line"].as_u64()? as u32, v["character"].as_u64()? as u32);
        Some((p(&v["start"])?, p(&v["end"])?))
    }
}

pub const METHODS: &[&str] = &[
    "prepareCallHierarchy",
    "incomingCalls",
    "outgoingCalls",
    "codeAction",
    "completion",
    "definition",
    "typeDefinition",
    "declaration",
    "diagnostic",
    "documentSymbol",
    "foldingRange",
    "formatting",
    "rangeFormatting",
    "hover",
    "inlayHint",
    "references",
    "prepareRename",
    "rename",
    "selectionRange",
    "semanticTokensFull",
    "semanticTokensRange",
];

fn p<T: DeserializeOwned>(v: Value) -> T {
    serde_json::from_value(v).expect("harness: bad params")
}
fn j<T: Serialize>(t: T) -> Value {
    serde_json::to_value(t).expect("harness: bad result")
}

pub fn dispatch(s: &LanguageService, m: &str, v: Value) -> Value {
    match m {
        "prepareCallHierarchy" => j(s.prepare_call_hierarchy(p(v))),
        "incomingCalls" => j(s.call_hierarchy_incoming_calls(p(v))),
        "outgoingCalls" => j(s.call_hierarchy_outgoing_calls(p(v))),
        "codeAction" => j(s.code_action(p(v))),
        "completion" => j(s.completion(p(v))),
        "definition" => j(s.goto_definition(p(v))),
        "typeDefinition" => j(s.goto_type_definition(p(v))),
        "declaration" => j(s.goto_declaration(p(v))),
        "diagnostic" => j(s.pull_diagnostics(p(v))),
        "documentSymbol" => j(s.document_symbol(p(v))),
        "foldingRange" => j(s.folding_range(p(v))),
        "formatting" => j(s.formatting(p(v))),
        "rangeFormatting" => j(s.range_formatting(p(v))),
        "hover" => j(s.hover(p(v))),
        "inlayHint" => j(s.inlay_hint(p(v))),
        "references" => j(s.find_references(p(v))),
        "prepareRename" => j(s.prepare_rename(p(v))),
        "rename" => match s.rename(p(v)) {
            Ok(r) => json!({ "ok": j(r) }),
            Err(e) => json!({ "err": e.to_string() }),
        },
        "selectionRange" => j(s.selection_range(p(v))),
        "semanticTokensFull" => j(s.semantic_tokens_full(p(v))),
        "semanticTokensRange" => j(s.semantic_tokens_range(p(v))),
        _ => panic!("harness: unknown method {m}"),
    }
}

pub const LEGEND: &[&str] = &[
    "type", "parameter", "variable", "function", "keyword", "comment", "string", "number", "operator",
];

pub fn new_service() -> LanguageService {
    let mut s = LanguageService::default();
    s.initialize(p(json!({"capabilities": {"textDocument": {"semanticTokens": {
        "requests": {"full": true, "range": true}, "tokenTypes": LEGEND, "tokenModifiers": [], "formats": ["relative"]
    }}}})));
    s
}

pub struct Doc {
    pub svc: LanguageService,
    pub uri: String,
    pub map: LineMap,
}

impl Doc {
    pub fn new(src: &str) -> Doc {
        let mut svc = new_service();
        let uri = "untitled:doc".to_string();
        svc.commit(p(json!(uri)), src.to_string());
        Doc { svc, uri, map: LineMap::new(src) }
    }
    pub fn on(svc: LanguageService, uri: &str, src: &str) -> Doc {
        Doc { svc, uri: uri.to_string(), map: LineMap::new(src) }
    }
    pub fn td(&self) -> Value {
        json!({"uri": self.uri})
    }
    pub fn at(&self, m: &str, o: usize) -> Value {
        dispatch(&self.svc, m, json!({"textDocument": self.td(), "position": self.map.jpos(o)}))
    }
    pub fn doc(&self, m: &str) -> Value {
        dispatch(&self.svc, m, json!({"textDocument": self.td()}))
    }
    pub fn diags(&self) -> Vec<Value> {
        let v = self.doc("diagnostic");
        v["items"].as_array().cloned().unwrap_or_default()
    }
    pub fn refs(&self, o: usize, decl: bool) -> Value {
        dispatch(
            &self.svc,
            "references",
            json!({"textDocument": self.td(), "position": self.map.jpos(o), "context": {"includeDeclaration": decl}}),
        )
    }
    pub fn rename(&self, o: usize, name: &str) -> Value {
        dispatch(
            &self.svc,
            "rename",
            json!({"textDocument": self.td(), "position": self.map.jpos(o), "newName": name}),
        )
    }
    pub fn range_req(&self, m: &str, r: R) -> Value {
        dispatch(
            &self.svc,
            m,
            json!({"textDocument": self.td(), "range": self.map.jrange(r), "context": {"diagnostics": []},
                "options": {"tabSize": 2, "insertSpaces": true}}),
        )
    }
    /// Location / array of locations / null → sorted byte ranges
    pub fn locs(&self, v: &Value) -> Result<Vec<R>, String> {
        let items = match v {
            Value::Null => vec![],
            Value::Array(a) => a.clone(),
            v => vec![v.clone()],
        };
        let mut out = vec![];
        for i in items {
            if i["uri"] != json!(self.uri) {
                return Err(format!("location in another document: {i}"));
            }
            out.push(self.map.range(&i["range"]).ok_or_else(|| format!("range outside the document: {i}"))?);
        }
        out.sort();
        Ok(out)
    }
    /// Applies a list of TextEdits; fails on overlaps and positions outside the text.
    pub fn apply(&self, src: &str, edits: &Value) -> Result<String, String> {
        let mut es = vec![];
        for e in edits.as_array().ok_or("edits aren't a list")? {
            let r = self.map.range(&e["range"]).ok_or_else(|| format!("edit outside the document: {e}"))?;
            if r.0 > r.1 {
                return Err(format!("edit with inverted range: {e}"));
            }
            es.push((r, e["newText"].as_str().unwrap_or_default().to_string()));
        }
        es.sort();
        let mut out = String::new();
        let mut at = 0;
        for (r, t) in es {
            if r.0 < at {
                return Err("overlapping edits".into());
            }
            out.push_str(&src[at..r.0]);
            out.push_str(&t);
            at = r.1;
        }
        out.push_str(&src[at..]);
        Ok(out)
    }
}

/// Sorts what the protocol leaves unordered (and the code derives from hash maps).
pub fn canon(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(canon).collect();
            if a.iter().all(|x| x.is_object()) {
                a.sort_by_cached_key(|x| x.to_string());
            }
            Value::Array(a)
        }
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), canon(v))).collect()),
        v => v.clone(),
    }
}
