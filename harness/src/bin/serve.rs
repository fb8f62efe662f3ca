//! Drives the real server binary over stdio with random histories of messages.
//! Expected answers: those of a fresh service that has only ever seen the latest text.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};
use wlt::gen::Rng;
use wlt::svc::{canon, dispatch, LineMap, LEGEND};
use wlt::{gen, gen2};

const METHODS: &[(&str, &str)] = &[
    ("prepareCallHierarchy", "textDocument/prepareCallHierarchy"),
    ("incomingCalls", "callHierarchy/incomingCalls"),
    ("outgoingCalls", "callHierarchy/outgoingCalls"),
    ("codeAction", "textDocument/codeAction"),
    ("completion", "textDocument/completion"),
    ("definition", "textDocument/definition"),
    ("typeDefinition", "textDocument/typeDefinition"),
    ("declaration", "textDocument/declaration"),
    ("diagnostic", "textDocument/diagnostic"),
    ("documentSymbol", "textDocument/documentSymbol"),
    ("foldingRange", "textDocument/foldingRange"),
    ("formatting", "textDocument/formatting"),
    ("rangeFormatting", "textDocument/rangeFormatting"),
    ("hover", "textDocument/hover"),
    ("inlayHint", "textDocument/inlayHint"),
    ("references", "textDocument/references"),
    ("prepareRename", "textDocument/prepareRename"),
    ("rename", "textDocument/rename"),
    ("selectionRange", "textDocument/selectionRange"),
    ("semanticTokensFull", "textDocument/semanticTokens/full"),
    ("semanticTokensRange", "textDocument/semanticTokens/range"),
];

fn uri(k: usize) -> String {
    ["file:///a.wat", "file:///b.wat", "untitled:c", "file:///d%20e.wat"][k % 4].into()
}
fn service(uri: &str, text: &str) -> wat_service::LanguageService {
    let mut s = wat_service::LanguageService::default();
    s.initialize(serde_json::from_value(init(true)).unwrap());
    s.commit(serde_json::from_value(json!(uri)).unwrap(), text.into());
    s
}
fn init(pull: bool) -> Value {
    let mut td = json!({"semanticTokens": {"requests": {"full": true, "range": true}, "tokenTypes": LEGEND,
        "tokenModifiers": [], "formats": ["relative"]}});
    if pull {
        td["diagnostic"] = json!({});
    }
    json!({"capabilities": {"textDocument": td}})
}

/// One history: the messages after the handshake, but for `shutdown` and `exit`.
fn history(r: &mut Rng, notifications: usize) -> Vec<Value> {
    let mut v = vec![json!({"pull": r.chance(30)})];
    let mut open: BTreeMap<usize, String> = BTreeMap::new();
    let mut id = 0;
    let text = |r: &mut Rng| match r.below(4) {
        0 => gen::any_doc(r),
        1 => String::new(),
        _ => gen2::semantic_doc(r),
    };
    for _ in 0..4 + r.below(16) {
        let k = r.below(3);
        if r.chance(notifications) || open.is_empty() {
            match open.get(&k).cloned() {
                None => {
                    let t = text(r);
                    v.push(json!({"n": "textDocument/didOpen", "p": {"textDocument": {"uri": uri(k), "languageId": "wat", "version": 1, "text": t}}}));
                    open.insert(k, t);
                }
                Some(_) if r.chance(15) => {
                    v.push(json!({"n": "textDocument/didClose", "p": {"textDocument": {"uri": uri(k)}}}));
                    open.remove(&k);
                }
                Some(old) => {
                    let n = if r.chance(75) { 1 } else { r.below(3) };
                    let ts: Vec<String> = (0..n)
                        .map(|_| if r.chance(40) { gen::mutate(r, &old) } else { text(r) })
                        .collect();
                    let ch: Vec<Value> = ts.iter().map(|t| json!({"text": t})).collect();
                    v.push(json!({"n": "textDocument/didChange", "p": {"textDocument": {"uri": uri(k), "version": 2}, "contentChanges": ch}}));
                    if let Some(t) = ts.last() {
                        open.insert(k, t.clone());
                    }
                }
            }
            continue;
        }
        match r.below(20) {
            0 => v.push(json!({"n": *r.pick(&["$/cancelRequest", "$/setTrace", "workspace/didChangeConfiguration", "textDocument/didSave"]), "p": {"id": 1, "value": "off"}})),
            1 => {
                id += 1;
                v.push(json!({"r": *r.pick(&["workspace/symbol", "textDocument/unknown", "textDocument/codeLens", ""]), "id": id, "p": {}, "expect": "error"}));
            }
            2 => {
                id += 1;
                let (_, m) = *r.pick(METHODS);
                let p = r.pick(&[json!({}), json!([1]), json!({"textDocument": 3}), json!(null)]).clone();
                v.push(json!({"r": m, "id": id, "p": p, "expect": "error"}));
            }
            3 => v.push(json!({"resp": 900 + r.below(9)})),
            4 => v.push(json!({"n": "textDocument/didOpen", "p": r.pick(&[json!({}), json!(7), json!(null)]).clone()})),
            _ => {
                let ks: Vec<usize> = open.keys().copied().collect();
                let k = *r.pick(&ks);
                let t = &open[&k];
                let map = LineMap::new(t);
                let mut at = |r: &mut Rng| {
                    let mut o = r.below(t.len() + 1);
                    // prefer positions in words
                    for _ in 0..20 {
                        if t.is_char_boundary(o) && t[o..].starts_with(|c: char| c == '$' || c.is_alphanumeric()) {
                            break;
                        }
                        o = r.below(t.len() + 1);
                    }
                    while !t.is_char_boundary(o) {
                        o -= 1;
                    }
                    o
                };
                let (a, b) = (at(r), at(r));
                let (a, b) = (a.min(b), a.max(b));
                let rg = map.jrange((a, b));
                let (name, m) = *r.pick(METHODS);
                id += 1;
                let mut p = json!({"textDocument": {"uri": uri(k)}, "position": map.jpos(a), "positions": [map.jpos(a)],
                    "range": rg, "context": {"diagnostics": [], "includeDeclaration": r.chance(50), "triggerKind": 1},
                    "options": {"tabSize": 2, "insertSpaces": true}, "newName": *r.pick(&["$new", "$x", "bad name", "new"])});
                if name.ends_with("Calls") {
                    let s = service(&uri(k), t);
                    let items = dispatch(&s, "prepareCallHierarchy", p.clone());
                    let Some(i) = items.get(0) else { continue };
                    p = json!({"item": i});
                }
                let idv = if r.chance(30) { json!(format!("s{id}")) } else { json!(id) };
                v.push(json!({"r": m, "id": idv, "p": p, "k": uri(k)}));
            }
        }
    }
    v
}

fn send(out: &mut Vec<u8>, m: &Value) {
    let s = m.to_string();
    write!(out, "Content-Length: {}\r\n\r\n{}", s.len(), s).unwrap();
}

fn run(server: &str, h: &[Value]) -> Result<usize, String> {
    let pull = h.first().is_some_and(|m| m["pull"] == true);
    let mut bytes = vec![];
    send(&mut bytes, &json!({"jsonrpc": "2.0", "id": "init", "method": "initialize", "params": init(pull)}));
    send(&mut bytes, &json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}));
    let mut texts: BTreeMap<String, String> = BTreeMap::new();
    // what may be pushed about a document, and what has to be the last
    let mut pushes: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    let mut want: BTreeMap<String, (Value, String)> = BTreeMap::new();
    let diags = |u: &str, t: &str| {
        let s = service(u, t);
        canon(&dispatch(&s, "diagnostic", json!({"textDocument": {"uri": u}}))["items"])
    };
    for m in h {
        if let Some(n) = m["n"].as_str() {
            let u = m["p"]["textDocument"]["uri"].as_str().unwrap_or("").to_string();
            match n {
                "textDocument/didOpen" if !u.is_empty() => {
                    let t = m["p"]["textDocument"]["text"].as_str().unwrap_or("");
                    texts.insert(u.clone(), t.into());
                    pushes.entry(u.clone()).or_default().push(diags(&u, t));
                }
                "textDocument/didChange" if texts.contains_key(&u) => {
                    for c in m["p"]["contentChanges"].as_array().unwrap() {
                        texts.insert(u.clone(), c["text"].as_str().unwrap().into());
                    }
                    pushes.entry(u.clone()).or_default().push(diags(&u, &texts[&u]));
                }
                "textDocument/didClose" => {
                    texts.remove(&u);
                    pushes.entry(u).or_default().push(json!([]));
                }
                "textDocument/didChange" => continue,
                _ => {}
            }
            send(&mut bytes, &json!({"jsonrpc": "2.0", "method": n, "params": m["p"]}));
        } else if let Some(id) = m.get("resp") {
            send(&mut bytes, &json!({"jsonrpc": "2.0", "id": id, "result": null}));
        } else if let Some(meth) = m["r"].as_str() {
            let exp = if m["expect"] == "error" {
                json!({"error": true})
            } else {
                let u = m["k"].as_str().unwrap();
                let Some(t) = texts.get(u) else { continue };
                let s = service(u, t);
                let name = METHODS.iter().find(|x| x.1 == meth).unwrap().0;
                let v = dispatch(&s, name, m["p"].clone());
                if name == "rename" {
                    if v.get("err").is_some() {
                        json!({"error": true})
                    } else {
                        json!({"result": canon(&v["ok"])})
                    }
                } else {
                    json!({"result": canon(&v)})
                }
            };
            want.insert(m["id"].to_string(), (exp, m.to_string()));
            send(&mut bytes, &json!({"jsonrpc": "2.0", "id": m["id"], "method": meth, "params": m["p"]}));
        }
    }
    send(&mut bytes, &json!({"jsonrpc": "2.0", "id": "bye", "method": "shutdown", "params": null}));
    send(&mut bytes, &json!({"jsonrpc": "2.0", "method": "exit", "params": null}));
    let mut child = Command::new(server)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("harness: cannot start the server");
    let mut stdin = child.stdin.take().unwrap();
    let w = std::thread::spawn(move || {
        let _ = stdin.write_all(&bytes);
        // keep it open: `exit` is what stops the server
        stdin
    });
    let mut rd = BufReader::new(child.stdout.take().unwrap());
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        loop {
            let mut len = 0usize;
            loop {
                let mut l = String::new();
                match rd.read_line(&mut l) {
                    Ok(0) | Err(_) => return,
                    _ => {}
                }
                let l = l.trim();
                if l.is_empty() {
                    break;
                }
                if let Some(n) = l.strip_prefix("Content-Length:") {
                    len = n.trim().parse().unwrap_or(0);
                }
            }
            let mut b = vec![0; len];
            if rd.read_exact(&mut b).is_err() {
                return;
            }
            let v: Value = serde_json::from_slice(&b).unwrap_or(json!({"garbage": String::from_utf8_lossy(&b)}));
            if tx.send(v).is_err() {
                return;
            }
        }
    });
    let t0 = Instant::now();
    let mut got: Vec<Value> = vec![];
    let mut timeout = false;
    loop {
        match rx.recv_timeout(Duration::from_secs(20)) {
            Ok(v) => got.push(v),
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
            Err(_) => {
                timeout = true;
                break;
            }
        }
    }
    let mut status = None;
    while t0.elapsed() < Duration::from_secs(40) && !timeout {
        if let Ok(Some(s)) = child.try_wait() {
            status = Some(s);
            break;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    let _ = child.kill();
    let _ = child.wait();
    let mut err = String::new();
    let _ = child.stderr.take().unwrap().read_to_string(&mut err);
    let _ = w.join();
    let mut n = 0;
    want.insert("\"init\"".into(), (json!({"any": true}), "initialize".into()));
    want.insert("\"bye\"".into(), (json!({"result": null}), "shutdown".into()));
    let mut last: BTreeMap<String, Value> = BTreeMap::new();
    for g in &got {
        if let Some(id) = g.get("id").filter(|_| g.get("method").is_none()) {
            let key = id.to_string();
            let Some((exp, what)) = want.remove(&key) else {
                return Err(format!("response {g} to no request, or the second one to the same request"));
            };
            n += 1;
            let ok = if exp.get("any").is_some() {
                g.get("result").is_some() && g.get("error").is_none_or_null()
            } else if exp.get("error").is_some() {
                !g.get("error").is_none_or_null()
            } else {
                g.get("error").is_none_or_null() && canon(g.get("result").unwrap_or(&Value::Null)) == exp["result"]
            };
            if !ok {
                return Err(format!("{what} is answered with {g}, expected {exp}"));
            }
        } else if g["method"] == "textDocument/publishDiagnostics" {
            let u = g["params"]["uri"].as_str().unwrap_or("").to_string();
            let d = canon(&g["params"]["diagnostics"]);
            n += 1;
            if !pushes.get(&u).is_some_and(|p| p.contains(&d)) {
                return Err(format!("pushed diagnostics {g} belong to none of the texts of that document"));
            }
            last.insert(u, d);
        } else if g.get("garbage").is_some() || g.get("method").is_none() {
            return Err(format!("unexpected message {g}"));
        }
    }
    if let Some((k, (_, what))) = want.iter().next() {
        return Err(format!("no response to request {k}: {what}; stderr: {}", err.chars().take(300).collect::<String>()));
    }
    for (u, p) in &pushes {
        let w = p.last().unwrap();
        match last.get(u) {
            Some(d) if d == w => {}
            // the client pulls
            _ if pull => {}
            d => {
                return Err(format!("the last diagnostics pushed about {u} are {d:?}, expected {w}"));
            }
        }
    }
    match status {
        Some(s) if s.success() => Ok(n),
        Some(s) => Err(format!("the server ends with {s}; stderr: {}", err.chars().take(300).collect::<String>())),
        None => Err("the server doesn't stop on exit".into()),
    }
}

trait NoneOrNull {
    fn is_none_or_null(&self) -> bool;
}
impl NoneOrNull for Option<&Value> {
    fn is_none_or_null(&self) -> bool {
        self.is_none() || self.unwrap().is_null()
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args[1].as_str();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let server = opt("--server").expect("harness: --server");
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(20);
    if let Some(p) = opt("--replay") {
        let h: Vec<Value> = std::fs::read_to_string(p).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
        match run(&server, &h) {
            Ok(n) => println!("PASS {n}"),
            Err(m) => {
                println!("FAIL {m}");
                std::process::exit(1);
            }
        }
        return;
    }
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let deadline = Instant::now() + Duration::from_secs(secs);
    let (mut evals, mut facts) = (0, 0);
    let mut fails = vec![];
    let mut samples = vec![];
    while Instant::now() < deadline && fails.is_empty() {
        let h = history(&mut r, if id == "P19" { 55 } else { 25 });
        evals += 1;
        match run(&server, &h) {
            Ok(n) => {
                facts += n;
                let s: Vec<String> = h.iter().map(|m| m["n"].as_str().or(m["r"].as_str()).unwrap_or("-").to_string()).collect();
                if samples.len() < 3 {
                    samples.push(s.join(" "));
                }
            }
            Err(_) => {
                let mut h = h;
                let t0 = Instant::now();
                let mut i = 0;
                while i < h.len() && t0.elapsed().as_secs() < 60 {
                    let mut c = h.clone();
                    c.remove(i);
                    if run(&server, &c).is_err() {
                        h = c;
                    } else {
                        i += 1;
                    }
                }
                let m = match run(&server, &h) {
                    Err(m) => m,
                    Ok(_) => continue,
                };
                let lines: Vec<String> = h.iter().map(|v| v.to_string()).collect();
                fails.push(json!({"input": lines.join("\n"), "message": m}));
            }
        }
    }
    println!("{}", json!({"id": id, "evaluations": evals, "skipped": 0, "facts": facts, "distinct": evals, "samples": samples, "failures": fails}));
    std::process::exit(i32::from(!fails.is_empty()));
}
