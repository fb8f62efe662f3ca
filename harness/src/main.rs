use wlt::checks::{O, V};
use wlt::gen::Rng;
use wlt::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type F = fn(&str) -> O;

/// (oracle, documents it is fed with)
pub enum Src {
    Valid,
    Any,
    /// 70 % valid, 30 % any
    Mix,
    Typed,
    Operands,
    Groups,
    Hist,
}

fn document(k: &Src, r: &mut Rng) -> String {
    match k {
        Src::Valid => {
            if r.chance(50) {
                gen::valid_doc(r)
            } else {
                gen2::semantic_doc(r)
            }
        }
        Src::Any => gen::any_doc(r),
        Src::Mix => {
            let k = if r.chance(70) { Src::Valid } else { Src::Any };
            document(&k, r)
        }
        Src::Typed => gen2::typed_doc(r),
        Src::Operands => {
            if r.chance(60) {
                gen2::operand_doc(r)
            } else {
                document(&Src::Valid, r)
            }
        }
        Src::Groups => match r.below(4) {
            0 => gen2::group_doc(r),
            1 => gen2::memarg_doc(r),
            _ => document(&Src::Mix, r),
        },
        Src::Hist => {
            if r.chance(40) {
                // edits that keep the layout of a small module, one after the other
                let mut v = vec![gen2::small_doc(r)];
                for _ in 0..1 + r.below(3) {
                    let t = gen::touch(r, &v[v.len() - 1]);
                    v.push(t);
                }
                return v.join(&checks2::SEP.to_string());
            }
            let n = 2 + r.below(4);
            let mut v: Vec<String> = vec![];
            for _ in 0..n {
                let t = if !v.is_empty() && r.chance(70) {
                    let b = if r.chance(70) { v[v.len() - 1].clone() } else { r.pick(&v).clone() };
                    match r.below(3) {
                        0 => gen::mutate(r, &b),
                        _ => gen::touch(r, &b),
                    }
                } else if r.chance(40) {
                    gen2::semantic_doc(r)
                } else {
                    document(&Src::Mix, r)
                };
                v.push(t.replace(checks2::SEP, ""));
            }
            v.join(&checks2::SEP.to_string())
        }
    }
}

fn oracle(id: &str) -> Option<(F, Src)> {
    Some(match id {
        "P01" => (checks::p01, Src::Any),
        "P02" => (checks::p02, Src::Any),
        "P03" => (checks::p03, Src::Any),
        "P06" => (checks::p06, Src::Valid),
        "P07" => (checks::p07, Src::Valid),
        "P08" => (checks::p08, Src::Valid),
        "P09" => (checks::p09, Src::Valid),
        "P10" => (checks::p10, Src::Valid),
        "P12" => (checks2::p12, Src::Typed),
        "P13" => (checks2::p13, Src::Valid),
        "P14" => (checks2::p14, Src::Valid),
        "P15" => (checks2::p15, Src::Valid),
        "P16" => (checks2::p16, Src::Mix),
        "P17" => (checks2::p17, Src::Mix),
        "P20" => (checks2::p20, Src::Hist),
        "P21" => (checks2::p21, Src::Groups),
        "P22" => (checks2::p22, Src::Operands),
        "P23" => (checks2::p23, Src::Valid),
        "P24" => (checks2::p24, Src::Valid),
        "P25" => (checks2::p25, Src::Valid),
        "P26" => (checks2::p26, Src::Any),
        _ => return None,
    })
}

/// Checks that are independent of any document, over a whole finite domain.
fn finite(id: &str) -> Option<fn() -> O> {
    Some(match id {
        "P05" => checks::p05_chars,
        "P11" => checks2::p11_all,
        "P21" => checks2::p21_mem,
        _ => return None,
    })
}

static PROGRESS: Mutex<Option<(Instant, String)>> = Mutex::new(None);

/// An evaluation that doesn't come to an end: for the properties about termination that's the
/// violation, for the others the search stops here and the input is only named.
fn watchdog(id: String) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let hung = match &*PROGRESS.lock().unwrap() {
            Some((t, s)) if t.elapsed().as_secs() > 30 => Some(s.clone()),
            _ => None,
        };
        if let Some(s) = hung {
            let violation = matches!(id.as_str(), "P02" | "P26");
            let fails = if violation {
                vec![json!({"input": s, "message": "no answer within 30 s"})]
            } else {
                vec![]
            };
            println!("{}", json!({"id": id, "evaluations": 1, "skipped": 0, "facts": 0, "distinct": 0, "samples": [], "hung": s, "failures": fails}));
            std::process::exit(if violation { 1 } else { 4 });
        }
    });
}

fn run(f: F, s: &str) -> V {
    *PROGRESS.lock().unwrap() = Some((Instant::now(), s.to_string()));
    let v = run_(f, s);
    *PROGRESS.lock().unwrap() = None;
    v
}

fn run_(f: F, s: &str) -> V {
    match catch_unwind(AssertUnwindSafe(|| f(s))) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => V::Fail(e),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if m.contains("harness:") {
                eprintln!("{m}");
                std::process::exit(3);
            }
            V::Fail(format!("panicked: {m}"))
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args[1].as_str();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let n: usize = opt("--n").and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
    let secs: u64 = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(20);
    std::panic::set_hook(Box::new(|_| {}));
    watchdog(id.to_string());
    let mut pre = (0, None);
    if let Some(g) = finite(id) {
        if opt("--replay").is_none() || oracle(id).is_none() {
            let v = match catch_unwind(AssertUnwindSafe(g)) {
                Ok(Ok(v)) => v,
                Ok(Err(e)) => V::Fail(e),
                Err(_) => V::Fail("panicked".into()),
            };
            match v {
                V::Fail(m) => pre.1 = Some(m),
                V::Pass(n) => pre.0 = n,
                V::Skip => {}
            }
        }
    }
    if pre.1.is_some() || (oracle(id).is_none() && finite(id).is_some()) {
        let fails: Vec<_> = pre.1.iter().map(|m| json!({"input": Value::Null, "message": m})).collect();
        println!("{}", json!({"id": id, "evaluations": pre.0, "skipped": 0, "facts": pre.0, "distinct": pre.0,
            "samples": [], "exhaustive": true, "failures": fails}));
        std::process::exit(i32::from(!fails.is_empty()));
    }
    let Some((f, kind)) = oracle(id) else {
        eprintln!("no oracle {id}");
        std::process::exit(2);
    };
    if let Some(p) = opt("--replay") {
        let s = std::fs::read_to_string(p).unwrap();
        match run(f, &s) {
            V::Fail(m) => {
                println!("FAIL {m}");
                std::process::exit(1);
            }
            V::Pass(n) => println!("PASS {n}"),
            V::Skip => println!("SKIP"),
        }
        return;
    }
    let deadline = Instant::now() + Duration::from_secs(secs);
    let (mut evals, mut skipped, mut facts) = (0usize, 0usize, pre.0);
    let mut seen = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut fails: Vec<(String, String)> = vec![];
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    let maxfail: usize = opt("--maxfail").and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut i = 0;
    while i < n && Instant::now() < deadline && fails.len() < maxfail {
        i += 1;
        let s = document(&kind, &mut r);
        evals += 1;
        match run(f, &s) {
            V::Skip => skipped += 1,
            V::Pass(k) => {
                facts += k;
                if seen.insert(checks::rng_of(&s).0) && samples.len() < 3 && s.len() < 300 {
                    samples.push(s);
                }
            }
            V::Fail(_) => {
                let t0 = Instant::now();
                let small = shrink::shrink(&s, 4000, &mut |t| {
                    t0.elapsed().as_secs() < 20 && matches!(run(f, t), V::Fail(_))
                });
                let V::Fail(m) = run(f, &small) else { continue };
                fails.push((small, m));
            }
        }
    }
    let out = json!({"id": id, "evaluations": evals, "skipped": skipped, "facts": facts, "distinct": seen.len(),
        "samples": samples, "failures": fails.iter().map(|(s, m)| json!({"input": s, "message": m})).collect::<Vec<_>>()});
    println!("{out}");
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
