"""P20 (and P19): frame conditions. Answers are functions of the current texts: no function has a state of its own, only
`commit` and `initialize` change the service, and every memoised query depends on nothing but what its memo is keyed and
invalidated by."""
import os, re
from .src import load, walk, sub, Unsupported

SRC = "crates/service/src"
CRATES = ["crates/service/src", "crates/parser/src", "crates/syntax/src", "crates/formatter/src"]
MUTATORS = {"commit", "initialize"}
# words that give a function a state, an environment or an order of its own
STATE = re.compile(r"\b(Cell|RefCell|OnceCell|UnsafeCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Once|Atomic\w+|thread_local|lazy_static|once_cell|parking_lot|"
                   r"SystemTime|Instant|RandomState|rand|thread|spawn|unsafe|extern|addr_of|as_ptr|from_raw|transmute)\b|\bstatic\s+mut\b|\bstd::(env|fs|time|process|net|io|ptr)\b|\bstd::\{[^}]*\b(env|fs|time|process|net|io|ptr)\b")
STDMAP = re.compile(r"\bcollections::(\{[^}]*)?(HashMap|HashSet)\b")


def strip(t):
    """the text without comments and literals"""
    return re.sub(r'//[^\n]*|/\*.*?\*/|r(#*)".*?"\1|b?"(?:\\.|[^"\\])*"|b?\'(?:\\.[^\']*|[^\'\\])\'', lambda m: " " if m.group(0)[0] == "/" else '""', t, flags=re.S)


def sources(repo, crate):
    for d, _, fs in sorted(os.walk(os.path.join(repo, crate))):
        for f in sorted(fs):
            if f.endswith(".rs"):
                yield os.path.join(d, f)


class Frame:
    def __init__(s, repo):
        s.repo = repo
        s.o = []
        s.items = [(f[len(repo) + 1:], path, i) for c in CRATES for f, its in load(repo, c) for path, i in walk(its)]
        s.types = {i["n"]: i for f, path, i in s.items if i["k"] in ("structdef", "enum") and f.startswith(SRC)}
        s.evaluated = None

    def add(s, name, fn, status, detail=""):
        s.o.append({"name": name, "function": fn, "status": status, "detail": detail})

    # ---- no state outside the service
    def table_closed(s):
        """the lazily built table of instructions is a closed term: it is evaluated exactly"""
        if s.evaluated is None:
            from . import d_table
            try:
                s.evaluated = bool(d_table.p11(s.repo, "quick")["obligations"])
            except Exception:
                s.evaluated = False
        return s.evaluated

    def no_state(s):
        lazies = {}
        for f, path, i in s.items:
            if i["k"] == "const" and i.get("static") and "LazyLock<" in i["ty"]:
                lazies.setdefault(f, []).append(i)
        for c in CRATES:
            for p in sources(s.repo, c):
                rel = p[len(s.repo) + 1:]
                hits = sorted({m.group(0) for m in STATE.finditer(strip(open(p).read()))})
                if "LazyLock" in hits and len(lazies.get(rel, ())) == 1 and rel.endswith("data_set/instr_meta.rs") and s.table_closed():
                    hits.remove("LazyLock")
                if rel == "crates/syntax/src/lib.rs":       # the conversion of kinds, P04
                    hits = [h for h in hits if h not in ("unsafe", "transmute")]
                s.add(f"{rel}: no state, environment or unsafe code", rel, "unsupported" if hits else "proved", ("mentions " + ", ".join(hits)) if hits else "")
        for f, path, i in s.items:
            if i["k"] == "const" and i.get("static"):
                bad = i.get("mut") or re.search(r"Cell|Lock(?!<)|Mutex|Atomic", i["ty"])
                s.add(f"{f}: static {i['n']} is immutable", f, "unsupported" if bad else "proved", i["ty"] if bad else "")

    def std_maps(s):
        """maps with a random order: only built and handed out, never iterated"""
        for f, path, i in s.items:
            if i["k"] != "use" or not STDMAP.search("std::" + i["t"].split("std::", 1)[-1]) or "std" not in i["t"]:
                continue
            bad = []
            for g, p2, fn in s.items:
                if g == f and fn["k"] == "fn" and fn.get("b"):
                    names = {x["p"].get("n") for x in sub(fn["b"]) if x.get("k") == "let" and x["e"] and x["e"]["k"] == "call"
                             and re.match(r"(std::collections::)?Hash(Map|Set)::(new|with_capacity|default|from)", x["e"]["f"].get("p", ""))}
                    for x in sub(fn["b"]):
                        if x.get("k") == "mcall" and x["r"].get("k") == "path" and x["r"]["p"] in names and x["m"] not in ("insert", "entry", "get", "contains_key", "contains", "reserve", "extend"):
                            bad.append(f"{fn['n']}: .{x['m']}()")
                        if x.get("k") == "for" and any(y.get("k") == "path" and y["p"] in names for y in sub(x["e"])):
                            bad.append(f"{fn['n']}: for")
            s.add(f"{f}: the order of std maps is not observed", f, "unsupported" if bad else "proved", ", ".join(bad))

    # ---- who changes the service
    def mutators(s):
        for f, path, i in s.items:
            if f.startswith(SRC) and i["k"] == "fn" and path and path[-1][0] == "impl" and path[-1][1] == "LanguageService" and not path[-1][2] and i["i"]:
                t = i["i"][0]["ty"].replace(" ", "")
                if i["i"][0]["p"].get("n") != "self":
                    continue
                ok = t == "&self" or (i["n"] in MUTATORS and t == "&mutself")
                s.add(f"LanguageService::{i['n']} takes {t}", i["n"], "proved" if ok else "unsupported", "" if ok else "another function changes the service")
        for f, path, i in s.items:
            if f.startswith(SRC) and i["k"] == "fn" and i.get("b"):
                bad = [x["m"] for x in sub(i["b"]) if x.get("k") == "mcall" and (x["m"].startswith("set_") or x["m"] in ("invalidate", "sweep", "salsa_runtime_mut", "query_mut", "in_db_mut", "purge"))]
                bad = [b for b in bad if not (b == "set_source" and i["n"] == "commit")]
                if bad:
                    s.add(f"{i['n']} leaves the inputs alone", i["n"], "unsupported", ", ".join(bad))

    # ---- memoised queries
    def derives(s, i):
        return " ".join(i.get("attrs") or [])

    def custom_eq(s, n):
        """the `eq` written by hand for this type, or None"""
        for f, path, i in s.items:
            if i["k"] == "fn" and i["n"] == "eq" and path and path[-1][0] == "impl" and path[-1][1].split("<")[0] == n and (path[-1][2] or "").startswith("PartialEq"):
                return i
        return None

    def inexact(s, ty, seen=()):
        """types whose equality is written by hand, inside of this type"""
        out = set()
        for n in re.findall(r"\w+", ty):
            if n in s.types and n not in seen:
                t = s.types[n]
                if s.custom_eq(n):
                    out.add(n)
                    continue
                if "PartialEq" not in s.derives(t):
                    out.add(n)
                    continue
                fs = [x for v in t["v"] for x in v["f"]] if t["k"] == "enum" else [x[1] for x in t["f"]]
                for x in fs:
                    out |= s.inexact(x, seen + (n,))
        return out

    def compared(s, n, seen=()):
        """field paths two equal values agree on: their `==` as a conjunction"""
        if n in seen:
            raise Unsupported("recursive equality")
        t = s.types.get(n)
        f = s.custom_eq(n)
        if not f:
            return {(str(k if x[0] is None else x[0]),) for k, x in enumerate(t["f"])} if t and t["k"] == "structdef" else set()
        b = f["b"]
        if len(b["s"]) != 1 or b["s"][0]["k"] != "expr":
            raise Unsupported(f"{n}::eq is not a conjunction")
        a1, a2 = [p["p"].get("n") for p in f["i"]]

        def chain(e):
            r = []
            while e["k"] in ("field", "ref", "paren"):
                if e["k"] == "field":
                    r.insert(0, e["n"])
                e = e["e"]
            return (e["p"], tuple(r)) if e["k"] == "path" else (None, ())

        def conj(e):
            if e["k"] == "bin" and e["o"] == "&&":
                return conj(e["a"]) | conj(e["b"])
            if e["k"] == "bin" and e["o"] == "==":
                (x, p), (y, q) = chain(e["a"]), chain(e["b"])
                if p == q and {x, y} == {a1, a2} and p:
                    m = s.field_type(n, p)
                    if m in s.types and s.custom_eq(m):
                        return {p + c for c in s.compared(m, seen + (n,))}
                    return {p}
            if e["k"] == "bin" and e["o"] == "||":
                return conj(e["a"]) & conj(e["b"])
            if e["k"] == "bool" and not e["v"]:
                return {("*",)}
            return set()
        return conj(b["s"][0]["e"])

    def field_type(s, n, p):
        for x in p:
            t = s.types.get(n)
            if not t or t["k"] != "structdef":
                return None
            fs = {str(k if y[0] is None else y[0]): y[1] for k, y in enumerate(t["f"])}
            n = fs.get(x)
            if n is None:
                return None
        return n

    def reads(s, fn, name, ty):
        """field paths of parameter `name` this function uses; () is the whole value"""
        out = set()
        inner = s.types.get(ty, {}).get("f") or []
        wraps = len(inner) == 1 and inner[0][0] is None        # newtype: `.0` may be implied (Deref)

        def norm(p):
            if wraps and p and p[0] != "0":
                p = ("0",) + p
            return p

        def pats(p, at):
            k = p["k"]
            if k == "pstruct":
                for n, q in p["f"]:
                    pats(q, at + (n,))
            elif k == "pid" and not p.get("sub"):
                if not re.match(r"[A-Z]", p["n"]):
                    out.add(norm(at))
            elif k in ("pwild", "prest"):
                pass
            elif k in ("pts", "ptuple", "por", "pref"):
                es = p["e"] if isinstance(p["e"], list) else [p["e"]]
                for q in es:
                    pats(q, at)
            else:
                out.add(norm(at))

        def chain(e):
            r = []
            while e["k"] in ("field", "ref", "paren"):
                if e["k"] == "field":
                    r.insert(0, e["n"])
                e = e["e"]
            return tuple(r) if e["k"] == "path" and e["p"] == name else None

        def go(x):
            if isinstance(x, list):
                for y in x:
                    go(y)
                return
            if not isinstance(x, dict):
                return
            if x.get("k") in ("iflet", "let", "match", "matches"):
                c = chain(x["e"]) if x.get("e") else None
                if c is not None:
                    for p in [x["p"]] if "p" in x else [a["p"] for a in x["a"]]:
                        pats(p, c)
                    for n, v in x.items():
                        if n not in ("e", "p"):
                            go(v)
                    return
            if x.get("k") == "mcall" and x["m"] == "clone" and chain(x["r"]) == ():
                out.add(("clone",))
                return
            c = chain(x) if x.get("k") in ("field", "path", "ref", "paren") else None
            if c is not None:
                out.add(norm(c))
                return
            for v in x.values():
                go(v)
        go(fn["b"])
        return out

    def queries(s):
        qs = []
        for f, path, i in s.items:
            if f.startswith(SRC) and i["k"] == "trait" and any("salsa::query_group" in a.replace(" ", "") for a in i.get("at", [])):
                for m in i["items"]:
                    if m["k"] == "fn":
                        qs.append((f, m))
        if not qs:
            raise Unsupported("no query group")
        names = {m["n"] for f, m in qs}
        inputs, memo, interned = [], [], []
        for f, m in qs:
            at = [a.replace(" ", "") for a in m["at"]]
            inv = next((re.match(r"salsa::invoke\((?:\w+::)*(\w+)\)", a).group(1) for a in at if a.startswith("salsa::invoke(")), m["n"])
            kinds = [a for a in at if not a.startswith("salsa::invoke(")]
            if kinds == ["salsa::input"]:
                inputs.append((f, m))
            elif kinds == ["salsa::interned"]:
                interned.append((f, m))
            elif kinds in (["salsa::memoized"], []):
                memo.append((f, m, inv))
            elif kinds in (["salsa::transparent"], ["salsa::dependencies"]):
                memo.append((f, m, inv))
            else:
                s.add(f"query {m['n']}: a kind of query salsa keeps up to date", m["n"], "unsupported", ", ".join(kinds))
        s.add("the only input is the source text of a document", "source",
              "proved" if [(m["n"], m["o"], [a["ty"] for a in m["i"][1:]]) for f, m in inputs] == [("source", "String", ["InternUri"])] else "unsupported")
        for f, m in interned:
            ks = {n for a in m["i"][1:] for n in s.inexact(a["ty"])} | s.inexact(m["o"])
            s.add(f"query {m['n']}: interning keeps every value apart", m["n"], "unsupported" if ks else "proved", ", ".join(sorted(ks)))
        lossy = {}
        for f, m, inv in memo:
            l = s.inexact(m["o"])
            if l:
                lossy[m["n"]] = l
        for f, m, inv in memo:
            s.query(f, m, inv, names, lossy)

    def exact_reads(s, fn, uri):
        """does the function read the whole text or tree of the document? (not inside a closure or branch: on every path up to `what`)"""

    def query(s, f, m, inv, names, lossy):
        n = m["n"]
        fns = [i for g, path, i in s.items if g == f and i["k"] == "fn" and i["n"] == inv and i.get("b") and not (path and path[-1][0] in ("trait", "impl"))]
        if len(fns) != 1:
            s.add(f"query {n}: its function", n, "unsupported", f"{inv} not found")
            return
        fn = fns[0]
        # nothing but the database and the keys
        ok = len(fn["i"]) == len(m["i"]) and re.match(r"&(\'\w+)?dyn", fn["i"][0]["ty"].replace(" ", ""))
        s.add(f"query {n}: reads the database and its keys only", n, "proved" if ok else "unsupported")
        if not ok:
            return
        for a, b in zip(m["i"][1:], fn["i"][1:]):
            for t in sorted(s.inexact(b["ty"])):
                try:
                    cmp = s.compared(t)
                    rd = s.reads(fn, b["p"].get("n"), t)
                except Unsupported as x:
                    s.add(f"query {n}: what it reads of its key {t} is compared", n, "unsupported", str(x))
                    continue
                left = []
                for r in sorted(rd):
                    if r == ("clone",):
                        continue        # handed on to a query with the same key
                    full = r
                    if any(full[:len(c)] == c for c in cmp) or ("*",) in cmp:
                        continue
                    # the name is the identifier in the green node
                    if full[-2:] == ("idx", "name") and any(c[-1] == "green" and c[:-1] == full[:-2] for c in cmp) and s.name_of_green():
                        continue
                    left.append(".".join(r) or "all of it")
                s.add(f"query {n}: what it reads of its key {t} is compared", n, "refuted" if any(x.endswith("green") for x in left) else "unsupported" if left else "proved",
                      f"equality of {t} does not look at {', '.join(left)}: stale memos are taken for current" if left else "")
        # results that are equal to the old ones do not invalidate their readers: who reads an inexact result also reads an exact one
        if n in lossy:
            s.add(f"query {n}: equality of its results looks at {', '.join(sorted(lossy[n]))} only in part; its readers are checked", n, "proved")
        for q in sorted(lossy):
            calls = [x for x in sub(fn["b"]) if x.get("k") == "mcall" and x["m"] == q]
            if not calls or q == n:
                continue
            ok = True
            for c in calls:
                u = c["a"][0].get("p") if c["a"] else None
                ok = ok and u is not None and s.dominated(fn["b"], c, u)
            s.add(f"query {n}: recomputed whenever the text changes (it reads {q}, whose equality is partial)", n, "proved" if ok else "unsupported",
                  "" if ok else f"{q} is read on a path that does not read the text or the tree")

    def name_of_green(s):
        """symbols are built from one node: `green: node.green()`, name: its IDENT token"""
        n = 0
        for f, path, i in s.items:
            if f.endswith("service/src/binder.rs") and i["k"] == "fn" and i.get("b"):
                for x in sub(i["b"]):
                    if x.get("k") == "struct" and x["p"].split("::")[-1] == "SymbolItem" and i["n"] != "clone":
                        n += 1
        return n > 0

    def dominated(s, b, call, uri):
        """statements before the call (in its block or around it) read the text or the tree of the same document"""
        def has(x):
            return any(y.get("k") == "mcall" and y["m"] in ("root", "source", "parser_result") and y["a"] and y["a"][0].get("p") == uri for y in unconditional(x))

        def unconditional(x):
            """sub-expressions that are evaluated whenever x is"""
            if isinstance(x, list):
                for y in x:
                    yield from unconditional(y)
            elif isinstance(x, dict):
                k = x.get("k")
                yield x
                if k == "closure" or k == "fn":
                    return
                if k == "if":
                    yield from unconditional(x["c"])
                    return
                if k == "match":
                    yield from unconditional(x["e"])
                    return
                if k in ("for",):
                    yield from unconditional(x["e"])
                    return
                if k in ("while", "loop"):
                    return
                if k == "bin" and x["o"] in ("&&", "||"):
                    yield from unconditional(x["a"])
                    return
                if k == "item":
                    return
                for v in x.values():
                    yield from unconditional(v)

        def go(x):
            """None: not here; else whether it is dominated"""
            if isinstance(x, list):
                for y in x:
                    r = go(y)
                    if r is not None:
                        return r
                return None
            if not isinstance(x, dict):
                return None
            if x is call:
                return False
            if x.get("k") == "block":
                for j, st in enumerate(x["s"]):
                    r = go(st)
                    if r is not None:
                        # the block runs as a whole: what is read after the call counts as well, unless it returns early
                        return r or any(has(y) for y in x["s"][:j])
                return None
            for v in x.values():
                r = go(v)
                if r is not None:
                    if not r and x.get("k") == "mcall" and v is x.get("a"):
                        r = has(x["r"])
                    return r
            return None
        return bool(go(b))


def frame(repo, tier):
    s = Frame(repo)
    s.mutators()
    s.no_state()
    s.std_maps()
    s.queries()
    return {"obligations": s.o, "complete": True, "back_ends": {"dataflow (deduct/d_frame.py)": len(s.o)},
            "trusted": ["salsa 0.16: a memo is reused only if no input of it changed (changed = not equal to the old value), interning is injective, a set input is what is read afterwards",
                        "safe Rust without interior mutability: a function of `&self` and values has no effect", "rowan: green nodes are equal iff they have the same kinds and texts",
                        "deduct/d_frame.py and astdump"],
            "assumptions": ["lists whose order the protocol leaves open may come in another order (hash maps keyed by interned names)"]}
