#!/usr/bin/env python3
"""Decides one property for /repo's working tree.

  python3-vt check.py PID [--tier quick|thorough]

1. deduct/: verification conditions are generated from the current sources and discharged;
2. harness/: a search for a concrete failing input on the real code. It confirms refuted obligations and is
   the (bounded) stand-in for functions the verifier cannot take.
Exit 0: held. Exit 1 and `VIOLATION property=.. replay=..`: broken.
"""
import json, os, subprocess, sys, time, hashlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.83.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)
REPO = "/repo"
WORK = os.path.join(HERE, ".work")
HT = os.path.join(HERE, "harness", "target", "release")
SERVER = os.path.join(WORK, "target", "release", "wat_server")
FINITE = {"P04", "P05", "P11"}
SERVE = {"P18", "P19"}
# documents per process in the quick tier (a fixed number, so that runs repeat)
N = {"P01": 120000, "P02": 130000, "P03": 40000, "P06": 25000, "P07": 14000, "P08": 6000, "P09": 25000, "P10": 26000,
     "P12": 60000, "P13": 9000, "P14": 9000, "P15": 6000, "P16": 16000, "P17": 14000, "P20": 1100, "P21": 12000,
     "P22": 60000, "P23": 20000, "P24": 8000, "P25": 20000, "P26": 4000}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def build(pid):
    os.makedirs(WORK, exist_ok=True)
    bins = ["--bin", "p04"] if pid == "P04" else ["--bin", "serve"] if pid in SERVE else ["--bin", "wlt_harness"]
    r = sh(["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", HERE + "/harness/Cargo.toml"] + bins)
    ok = r.returncode == 0
    out = r.stdout
    if ok and pid in SERVE:
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", REPO + "/Cargo.toml", "-p", "wat_server"],
                           env=dict(ENV, CARGO_TARGET_DIR=WORK + "/target"), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ok, out = r.returncode == 0, r.stdout
    return ok, out


def search(pid, tier, seed):
    """Concrete search; returns merged result."""
    procs = 1 if pid in FINITE else (6 if tier == "quick" else 8)
    secs = {"quick": 60, "thorough": 420}[tier]
    def one(k):
        s = seed * 1000 + k
        if pid == "P04":
            cmd = [HT + "/p04", str(s), "400" if tier == "quick" else "20000"]
        elif pid in SERVE:
            cmd = [HT + "/serve", pid, "--server", SERVER, "--seed", str(s), "--secs", str(25 if tier == "quick" else secs)]
        else:
            cmd = [HT + "/wlt_harness", pid, "--seed", str(s), "--secs", str(secs)]
            if tier == "quick" and pid in N:
                cmd += ["--n", str(N[pid])]
        try:
            r = subprocess.run(cmd, env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs + 240)
        except subprocess.TimeoutExpired:
            return {"evaluations": 0, "skipped": 0, "facts": 0, "distinct": 0, "samples": [], "failures": [], "note": "time limit"}
        for line in reversed(r.stdout.strip().splitlines()):
            try:
                d = json.loads(line)
                d["rc"] = r.returncode
                return d
            except ValueError:
                pass
        d = {"evaluations": 0, "skipped": 0, "facts": 0, "distinct": 0, "samples": [], "failures": [],
             "note": f"rc {r.returncode}: {r.stderr[-500:]}"}
        if r.returncode < 0 and pid in ("P01", "P02", "P26"):
            # the process itself died (stack overflow, abort)
            d["failures"] = [{"input": None, "message": f"the process ended with signal {-r.returncode}; command {' '.join(cmd)}"}]
        return d
    with cf.ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, range(procs)))
    m = {k: sum(r[k] for r in rs) for k in ("evaluations", "skipped", "facts", "distinct")}
    m["samples"] = [s for r in rs for s in r["samples"]][:4]
    m["failures"] = [f for r in rs for f in r["failures"]]
    m["notes"] = [r["note"] for r in rs if "note" in r] + ["an input took over 30 s: %r" % r["hung"][:200] for r in rs if "hung" in r]
    return m


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    from deduct import run as deduct_run
    obs = deduct_run.obligations(pid, REPO, WORK, tier)
    t1 = time.time()
    proved = [o for o in obs["obligations"] if o["status"] == "proved"]
    refuted = [o for o in obs["obligations"] if o["status"] == "refuted"]
    unsup = [o for o in obs["obligations"] if o["status"] == "unsupported"]
    log(f"{pid}: {len(proved)} obligations discharged, {len(refuted)} refuted, {len(unsup)} out of reach, {t1 - t0:.1f} s")
    ok, out = build(pid)
    if ok:
        m = search(pid, tier, seed)
    else:
        log(out[-3000:])
        m = {"evaluations": 0, "skipped": 0, "facts": 0, "distinct": 0, "samples": [], "failures": [],
             "notes": ["the search could not be built: " + out[-400:]]}
    known = []
    with open(HERE + "/known-findings.jsonl") as f:
        for line in f:
            if line.strip():
                k = json.loads(line)
                if k["property"] == pid and k["status"] == "known":
                    known.append(k)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    # a failure that is one of the known findings, by its very input
    fails = [f for f in m["failures"] if not any(k.get("input") is not None and k["input"] == f["input"] for k in known)]
    rdir = os.path.join(HERE, "replay")
    violations = len(fails) + (len(refuted) if not fails else 0)
    rc = 0
    if fails or refuted:
        os.makedirs(rdir, exist_ok=True)
        rc = 1
        if fails:
            f = fails[0]
            p = os.path.join(rdir, f"{pid}-{hashlib.sha1(json.dumps(f).encode()).hexdigest()[:10]}")
            with open(p + ".json", "w") as h:
                json.dump({"property": pid, "input": f["input"], "message": f["message"],
                           "refuted_obligations": refuted[:20],
                           "replay": "write the input to a file and run: " + (
                               f"harness/target/release/serve {pid} --server <wat_server> --replay FILE" if pid in SERVE else
                               f"harness/target/release/wlt_harness {pid} --replay FILE" if f["input"] is not None else
                               "the message names the failing case")}, h, indent=1, ensure_ascii=False)
            if f["input"] is not None:
                with open(p + ".input", "w", newline="") as h:
                    h.write(f["input"])
            print(f"{pid}: {f['message'][:1500]}")
            if f["input"] is not None:
                print("input: " + json.dumps(f["input"], ensure_ascii=False)[:1500])
            for o in refuted[:5]:
                print(f"failed obligation {o['name']}: {o['detail'][:300]}")
            print(f"VIOLATION property={pid} replay={p}.json")
        else:
            p = os.path.join(rdir, f"{pid}-obligation.json")
            with open(p, "w") as h:
                json.dump({"property": pid, "failed_obligations": refuted, "verifier": "deduct/ (see DESIGN.md)"}, h, indent=1)
            for o in refuted[:5]:
                print(f"failed obligation {o['name']}: {o['detail'][:600]}")
            print(f"VIOLATION property={pid} replay={p} no-failing-input-found")
    level = "proof" if proved and not unsup and obs.get("complete") else "exploration"
    cov = {"obligations": len(obs["obligations"]), "discharged": len(proved), "out_of_reach": [o["name"] for o in unsup][:50],
           "functions_under_contract": sorted({o["function"] for o in obs["obligations"] if o.get("function")}),
           "back_ends": obs.get("back_ends", {}), "solver_s": round(obs.get("solver_s", 0.0), 3),
           "deduct_s": round(t1 - t0, 2), "checker_cmd": f"python3-vt check.py {pid}",
           "trusted_base": obs.get("trusted", []), "probes": obs.get("probes", []),
           "evaluations": m["evaluations"], "distinct_nontrivial": m["distinct"], "facts_checked": m["facts"], "skipped": m["skipped"],
           "rule": "bounded search on the real code: grammar-directed valid documents, token and character mutations of them and character soup (histories of messages for the server); "
                   "a case counts when it is distinct and the property says something about it",
           "samples": m["samples"], "notes": m["notes"],
           "known_findings": [k["what"] for k in known]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": obs.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(HERE + f"/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    log(f"{pid}: {m['evaluations']} cases, {m['facts']} facts, {len(fails)} failing; {time.time() - t0:.0f} s")
    sys.exit(rc)


main()
