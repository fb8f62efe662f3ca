"""Functional contracts of crates/service: `ensures result == spec` (deduct/specs/service), decided function by function."""
import copy, os, time
from .src import load, walk, Unsupported, sub
from .symv import Sym, resolve_self

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = "crates/service/src"


def _bound(f, what):
    """the variable that is bound to self.what(..) or SyntaxNode::what(..)"""
    for x in f["b"]["s"]:
        if x["k"] == "let" and x["p"]["k"] == "pid" and x["e"]:
            e = x["e"]
            if e["k"] == "mcall" and e["m"] == what or e["k"] == "call" and e["f"].get("p", "").split("::")[-1] == what:
                return x["p"]["n"]
    return "_"


def symbol_items(sym):
    """document_symbol: the closure that makes the item of a symbol, as the function `symbol_item`; the rest of
    document_symbol (which nests the items through a hash map) isn't under contract"""
    for (mod, owner, n), f in list(sym.qual.items()):
        if n != "document_symbol" or not f.get("b"):
            continue
        for x in sub(f["b"]):
            if x.get("k") == "mcall" and x["m"] == "filter_map" and len(x["a"]) == 1 and x["a"][0]["k"] == "closure" and \
                    any(y.get("k") == "mcall" and y["m"] == "iter" for y in sub(x["r"])):
                c = x["a"][0]
                ps = c.get("i") or c.get("p") or c.get("a")
                if len(ps) != 1:
                    continue
                par = ps[0]["p"] if "ty" in ps[0] and isinstance(ps[0].get("p"), dict) else ps[0]
                g = copy.deepcopy({k: v for k, v in f.items() if k != "b"})
                g["n"], g["o"] = "symbol_item", "Option<(SymbolItemKey,DocumentSymbol)>"

                def pid(v):
                    return {"k": "pid", "mut": False, "n": v, "ref": False, "sub": None}
                g["i"] = [g["i"][0], {"p": par, "ty": "&SymbolItem"}, {"p": pid(_bound(f, "line_index")), "ty": "&LineIndex"}, {"p": pid(_bound(f, "new_root")), "ty": "&SyntaxNode"}]
                b = copy.deepcopy(c["e"] if "e" in c else c["b"])
                g["b"] = b if b["k"] == "block" else {"k": "block", "s": [{"k": "expr", "e": b, "semi": False}], "l": f["l"]}
                sym.qual[(mod, owner, "symbol_item")] = g
                sym.owner[id(g)] = sym.owner.get(id(f))
                break


class Contracts:
    def __init__(s, repo, crate="service", prepare=lambda f: None, receivers=["crates/parser/src"], extract=symbol_items):
        s.repo = repo
        s.limit = 90
        s.src = SRC = f"crates/{crate}/src"
        s.sym = Sym(repo, [SRC], extra_types=["crates/syntax/src"] if crate != "syntax" else [], receivers=receivers)
        for f in s.sym.qual.values():
            prepare(f)
        extract(s.sym)
        s.specs = {}
        s.defs = {}
        root = os.path.join(HERE, "specs")
        for f, items in load(root, crate):
            mod = SRC + f[len(root) + len("/" + crate):]
            for path, i in walk(items):
                if i["k"] == "fn":
                    owner = path[-1][1] if path and path[-1][0] == "impl" else ""
                    resolve_self(i, owner)
                    prepare(i)
                    if i["n"].startswith("spec_") or mod.endswith("/support.rs"):
                        s.defs[i["n"]] = i
                    else:
                        s.specs[(mod, owner, i["n"])] = i
        s.impl, s.lost = {}, {}
        for k, sp in s.specs.items():
            f, why = s.find(k)
            if f is None:
                s.lost[k] = why
            elif len(f["i"]) != len(sp["i"]):
                s.lost[k] = "its parameters changed"
            else:
                s.impl[k] = f
        s.sym.contract(s.impl, {k: s.specs[k] for k in s.lost}, s.defs)

    def find(s, k):
        m, o, n = k
        q = s.sym.qual
        if k in q:
            return q[k], None
        c = [v for (m2, o2, n2), v in q.items() if n2 == n and m2 == m]
        if len(c) == 1:
            return c[0], None
        c = [v for (m2, o2, n2), v in q.items() if n2 == n]
        if len(c) == 1:
            return c[0], None
        return None, "not found in the sources"

    def unfolded(s, k):
        """does it meet its contract when the contracts of the functions next to it are taken for their definitions?"""
        keep = s.sym.spec_fns
        names = [x[2] for x in s.impl]
        near = {x[2]: s.specs[x] for x in s.impl if x[0] == k[0] and x != k and x[2] not in keep and names.count(x[2]) == 1
                and x[2] not in s.calls(s.specs[x]) and x[2] in s.calls(s.impl[k]) | s.calls(s.specs[k])}
        if not near:
            return False
        s.sym.spec_fns = {**keep, **near}
        try:
            return s.sym.check(s.impl[k], s.specs[k]) is None
        except (Unsupported, RecursionError):
            return False
        finally:
            s.sym.spec_fns = keep

    def calls(s, f):
        """names of the functions and methods called in it"""
        out = set()

        def go(x):
            if isinstance(x, dict):
                if x.get("k") == "mcall":
                    out.add(x["m"])
                if x.get("k") == "path":
                    out.add(x["p"].split("::")[-1])
                for y in x.values():
                    go(y)
            elif isinstance(x, list):
                for y in x:
                    go(y)
        go(f["b"])
        return out

    def check(s, k):
        """(status, detail, vcs, solver seconds)"""
        name = k[2]
        if k in s.lost:
            return "unsupported", f"{name}: {s.lost[k]}", 0, 0.0
        e = s.sym.e
        e.reset()
        t0, v0 = e.time, e.vcs
        s.sym.cur_mod = k[0]
        e.deadline = time.time() + s.limit
        e.unknown = False
        try:
            r = s.sym.check(s.impl[k], s.specs[k])
        except Unsupported as x:
            return "unsupported", str(x), e.vcs - v0, e.time - t0
        except RecursionError:
            return "unsupported", "recursion", e.vcs - v0, e.time - t0
        if r is not None and not r.startswith("~") and s.unfolded(k):
            r = None
        if r is None:
            return "proved", "", e.vcs - v0, e.time - t0
        return ("refuted" if not r.startswith("~") else "unsupported"), r[:600], e.vcs - v0, e.time - t0


# ---- which contracts a property rests on
HELP = [("helpers.rs", None)]
BIND = [("binder.rs", None), ("idx.rs", None)]
DEPENDS = {
    "P06": BIND + HELP + [("features/definition.rs", None), ("features/mod.rs", ["find_meaningful_token"])],
    "P07": BIND + HELP + [("features/references.rs", None), ("features/mod.rs", ["find_meaningful_token"])],
    "P08": BIND + HELP + [("features/rename.rs", None)],
    "P09": BIND + HELP + [("checker/undef.rs", None), ("checker/mod.rs", None)],
    "P10": BIND + HELP + [("checker/dup_names.rs", None), ("checker/mod.rs", None)],
    "P11": [("features/hover.rs", None)] + HELP,
    "P12": [("checker/typeck.rs", None), ("checker/mod.rs", None), ("types_analyzer.rs", None)] + BIND + HELP,
    "P15": [("features/formatting.rs", None)] + HELP,
    "P16": [("features/semantic_tokens.rs", None)] + HELP + [("features/mod.rs", ["is_call"]), ("lib.rs", None)] + BIND,
    "P17": [("features/selection_range.rs", None), ("features/folding_range.rs", None), ("features/document_symbol.rs", None)] + HELP + BIND,
    "P19": [("features/diagnostics.rs", None), ("checker/mod.rs", None), ("files.rs", None), ("lib.rs", None)],
    "P20": [("files.rs", None), ("lib.rs", None)],
    "P21": [("features/code_action.rs", None), ("refactorings/func_header_split.rs", None), ("refactorings/params_join.rs", None),
            ("refactorings/fix_invalid_mem_arg.rs", None)] + HELP,
    "P22": [("checker/literal_operands.rs", None), ("checker/multi_modules.rs", None), ("checker/mod.rs", None)] + HELP,
    "P23": [("features/hover.rs", None), ("features/inlay_hint.rs", None), ("types_analyzer.rs", None), ("features/mod.rs", ["find_meaningful_token"])] + BIND + HELP,
    "P24": [("features/completion.rs", None)] + BIND + HELP,
    "P25": [("features/call_hierarchy.rs", None), ("features/mod.rs", None)] + BIND + HELP,
    "P26": HELP,
}
TRUSTED = [
    "z3 4.x (python module z3), the symbolic evaluator deduct/symv.py and the syntax extraction astdump (syn)",
    "functions that are not under contract (rowan, line_index, lsp_types, salsa, std strings) are uninterpreted: the same arguments give the same result and no effect",
    "salsa queries are the functions they memoise",
    "accessors and casts of the typed syntax tree (crates/syntax) are uninterpreted here (property P04)",
]
ASSUME = [
    "integer arithmetic is mathematical (no overflow) and debug assertions are ignored",
    "clone, borrow, deref and from/into keep the value (one conversion per source and target)",
    "iteration over a hash map has some fixed order",
    "termination of recursive functions is not proved (partial correctness)",
    "that each contract says what the property says is by reading: see DESIGN.md",
]
_G = {}


def _one(a):
    k, probes = a
    c = _G["c"]
    import random
    from .mutate import sites
    t = time.time()
    try:
        st, detail, vcs, ss = c.check(k)
    except Exception as x:      # an internal error is never an alarm
        st, detail, vcs, ss = "unsupported", f"{type(x).__name__}: {x}", 0, 0.0
    pr = []
    if st == "proved" and probes and time.time() - t < 8:
        f = c.impl[k]
        ms = sites(f)
        random.Random(k[2]).shuffle(ms)
        for d, g in ms[:probes]:
            c.impl[k] = g
            c.sym.owner[id(g)] = c.sym.owner.get(id(f))
            try:
                pr.append((d, c.check(k)[0]))
            except Exception:
                pr.append((d, "unsupported"))
        c.impl[k] = f
    return k, st, detail, vcs, ss, pr


def contracts(pid, complete=False, want=None, make=Contracts, trusted=None, assume=None):
    want = want or DEPENDS[pid]

    def domain(repo, tier):
        import multiprocessing as mp
        c = make(repo)
        c.limit = 90 if tier == "quick" else 400
        ks = [k for k in sorted(c.specs) for f, ns in want if k[0] == c.src + "/" + f and (ns is None or k[2] in ns)]
        _G["c"] = c
        big = {"create_symbol_table": 0, "check": 0, "get_cmp_ctx": 0}
        ks.sort(key=lambda k: big.get(k[2], 1))
        with mp.get_context("fork").Pool(8) as pool:
            rs = pool.map(_one, [(k, 2 if tier == "quick" else 12) for k in ks], chunksize=1)
        obs, probes, vcs, ss = [], [], 0, 0.0
        for k, st, detail, v, t, pr in rs:
            own = f"<{k[1]}>::" if k[1] else ""
            name = f"{k[0][len('crates/'):]}::{own}{k[2]}"
            obs.append({"name": name + " ensures result == its contract", "function": name, "status": st, "detail": detail, "vcs": v, "backend": "z3"})
            probes += [f"{name}: {d}: {'refuted' if r == 'refuted' else 'not refuted (' + r + ')'}" for d, r in pr]
            vcs += v
            ss += t
        return {"obligations": obs, "trusted": TRUSTED if trusted is None else trusted, "assumptions": ASSUME if assume is None else assume, "back_ends": {"z3": vcs}, "solver_s": ss, "probes": probes,
                "complete": complete}
    domain.__name__ = f"contracts_{pid}"
    return domain
