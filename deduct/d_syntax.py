"""P04: kinds, casts and accessors of crates/syntax."""
import re
from .src import load, walk, sub, Unsupported
from .conc import Conc, Enum, Struct, discriminants
from .d_service import Contracts, contracts

SRC = "crates/syntax/src"


def prepare(f):
    """support::child / children without type arguments: the type is the one the function returns"""
    m = re.match(r"(?:Option|AstChildren)<(?:\w+::)*(\w+)>$", f["o"] or "")
    for e in sub(f["b"]):
        if e.get("k") == "call" and e["f"]["k"] == "path" and e["f"]["p"].split("::")[-1] in ("child", "children"):
            t = re.search(r"::<(?:\w+::)*(\w+)>$", e["f"].get("t") or "")
            t = t.group(1) if t else m.group(1) if m else None
            if t is None or len(e["a"]) != 1:
                continue
            e["f"] = dict(e["f"], p=e["f"]["p"].split("::")[-1] + "_by", t=None)
            e["a"] = e["a"] + [{"k": "closure", "i": [{"k": "pid", "n": "it", "mut": False, "ref": False, "sub": None}], "move": False, "l": e.get("l"),
                                "e": {"k": "call", "f": {"k": "path", "p": t + "::cast", "t": t + "::cast"}, "a": [{"k": "path", "p": "it", "t": "it"}], "l": e.get("l")}}]


class Node(Conc):
    """evaluates can_cast, cast and syntax on a node of which only the kind is looked at"""

    def __init__(s, items):
        super().__init__([])
        s.impls = {}
        for path, i in walk(items):
            if i["k"] == "fn" and path and path[-1][0] == "impl":
                s.impls[(re.sub(r"<.*", "", path[-1][1]), i["n"])] = i
                s.fns[i["n"]] = None
            elif i["k"] == "fn":
                s.fns[i["n"]] = i
            elif i["k"] == "enum":
                s.enums[i["n"]] = i
            elif i["k"] == "structdef":
                s.structs[i["n"]] = i
        s.impl_enums = {t for t, n in s.impls if t in s.enums}

    def method(s, t, n, args):
        f = s.impls.get((t, n))
        if f is None:
            raise Unsupported(f"no function {t}::{n}")
        old = getattr(s, "self_", None)
        s.self_ = t
        try:
            return s.call(f, args)
        finally:
            s.self_ = old

    def ev_call(s, e, env):
        if e["f"]["k"] == "path":
            p = e["f"]["p"].split("::")
            if len(p) == 2:
                t = s.self_ if p[0] == "Self" else p[0]
                if (t, p[1]) in s.impls:
                    return s.method(t, p[1], [s.ev(a, env) for a in e["a"]])
                if p[0] == "Self" and p[1][0].isupper():
                    e = dict(e, f=dict(e["f"], p=t + "::" + p[1]))
                    p = [t, p[1]]
                if p[0] in s.impl_enums and p[1][0].isupper():
                    v = Enum((p[1], tuple(s.ev(a, env) for a in e["a"])))
                    v.ty = p[0]
                    return v
            if p == ["Self"]:
                return Struct(s.self_, {str(i): s.ev(a, env) for i, a in enumerate(e["a"])})
        return super().ev_call(e, env)

    def ev(s, e, env):
        if e["k"] == "struct" and e["p"] == "Self":
            e = dict(e, p=s.self_)
        return super().ev(e, env)

    def mcall(s, e, env):
        r = s.ev(e["r"], env)
        if isinstance(r, Struct) and r.name == "SyntaxNode":
            if e["m"] == "kind":
                return r.f["kind"]
            if e["m"] == "clone":
                return r
        if isinstance(r, Enum) and (getattr(r, "ty", None), e["m"]) in s.impls:
            return s.method(r.ty, e["m"], [r] + [s.ev(a, env) for a in e["a"]])
        if isinstance(r, Struct) and (r.name, e["m"]) in s.impls:
            return s.method(r.name, e["m"], [r] + [s.ev(a, env) for a in e["a"]])
        if e["m"] in ("then", "then_some") and isinstance(r, bool):
            if not r:
                return Enum(("None", ()))
            return Enum(("Some", (s.ev(e["a"][0], env) if e["m"] == "then_some" else s.apply(s.ev(e["a"][0], env), []),)))
        if isinstance(r, Enum) and r[0] in ("Some", "None") and e["m"] in ("map", "or_else", "is_some", "is_none", "and_then"):
            if e["m"].startswith("is_"):
                return (r[0] == "Some") == (e["m"] == "is_some")
            f = s.ev(e["a"][0], env)
            if e["m"] == "or_else":
                return r if r[0] == "Some" else s.apply(f, [])
            if r[0] == "None":
                return r
            v = s.apply(f, [r[1][0]])
            return v if e["m"] == "and_then" else Enum(("Some", (v,)))
        return super().mcall(e, env)

    def apply(s, f, args):
        if f[0] == "variant":
            return Enum((f[1], tuple(args)))
        return super().apply(f, args)


def snake(t):
    return re.sub(r"(?<=[a-z0-9])(?=[A-Z])", "_", t).upper()


def kinds_and_types(repo):
    items = [i for f, it in load(repo, SRC) for i in it]
    enum = [i for i in items if i["k"] == "enum" and i["n"] == "SyntaxKind"]
    if len(enum) != 1:
        raise Unsupported("no SyntaxKind")
    names = [v["n"] for v in enum[0]["v"]]
    types = {}
    for i in items:
        if i["k"] == "impl" and i["tr"] and i["tr"].split("::")[-1] == "AstNode":
            types[re.sub(r"<.*", "", i["ty"])] = None
    for i in items:
        if i["k"] in ("enum", "structdef") and i["n"] in types:
            types[i["n"]] = i
    return items, enum[0], names, types


def tree(repo, tier):
    items, enum, names, types = kinds_and_types(repo)
    n = Node(items)
    kinds = {k: Enum((k, ())) for k in names}
    obs = []

    def ob(name, fn, why, k=1):
        obs.append({"name": name, "function": fn, "status": "refuted" if why else "proved", "detail": f"{name}: {why}" if why else "", "vcs": k, "backend": "exact evaluation"})

    def guard(name, fn, f, k=1):
        try:
            ob(name, fn, f(), k)
        except Unsupported as x:
            obs.append({"name": name, "function": fn, "status": "unsupported", "detail": str(x), "vcs": 0, "backend": "exact evaluation"})
    acc = {}

    def accepts(t):
        if t not in acc:
            r = {k: n.method(t, "can_cast", [v]) for k, v in kinds.items()}
            if not all(isinstance(x, bool) for x in r.values()):
                raise Unsupported("can_cast is no bool")
            acc[t] = {k for k, v in r.items() if v}
        return acc[t]

    def members(t):
        i = types[t]
        return [re.sub(r".*::", "", v["f"][0]) for v in i["v"] if len(v["f"]) == 1] if i and i["k"] == "enum" else None

    def wanted(t):
        m = members(t)
        if m is None:
            return {snake(t)}
        if any(x not in types for x in m):
            raise Unsupported("members of " + t)
        return set().union(*[wanted(x) for x in m])
    for t in sorted(types):
        own = f"syntax::{t}::"

        def can():
            a, w = accepts(t), wanted(t)
            if not w <= set(names):
                raise Unsupported(f"no kind {w}")
            return "" if a == w else f"accepts {sorted(a)}, named after {sorted(w)}"
        guard(f"{t}::can_cast ensures result == (kind is {'one of its members' if members(t) else snake(t)})", own + "can_cast", can, len(names))

        def cast():
            for k, v in kinds.items():
                node = Struct("SyntaxNode", {"kind": v})
                r = n.method(t, "cast", [node])
                if not isinstance(r, Enum) or r[0] not in ("Some", "None"):
                    raise Unsupported("result of cast")
                if (r[0] == "Some") != (k in accepts(t)):
                    return f"a node of kind {k}: cast gives {r[0]}, can_cast {k in accepts(t)}"
                if r[0] == "Some":
                    w = r[1][0]
                    if isinstance(w, Enum):
                        m = members(t)
                        x, at = w, t
                        while isinstance(x, Enum):
                            vs = {v["n"]: v["f"][0].split("::")[-1] for v in types[at]["v"] if len(v["f"]) == 1}
                            if getattr(x, "ty", None) != at or len(x[1]) != 1 or x[0] not in vs:
                                raise Unsupported("result of cast")
                            if k not in wanted(vs[x[0]]):
                                return f"a node of kind {k} becomes {at}::{x[0]}"
                            x, at = x[1][0], vs[x[0]]
                    else:
                        x = w
                    if not isinstance(x, Struct):
                        raise Unsupported("wrapper")
                    if x.f.get("syntax") is not node:
                        return f"the wrapper of a node of kind {k} is another node's"
                    if n.method(t, "syntax", [w]) is not node:
                        return f"syntax() of a {t} of kind {k} is not its node"
            return ""
        guard(f"{t}::cast ensures result.is_some() == can_cast(kind) and result.syntax() == node", own + "cast", cast, len(names))

    def disjoint():
        plain = [t for t in types if not members(t)]
        for i, a in enumerate(plain):
            for b in plain[i + 1:]:
                if accepts(a) & accepts(b):
                    return f"{a} and {b} both accept {sorted(accepts(a) & accepts(b))}"
        return ""
    guard("lemma: no two wrappers accept the same kind", None, disjoint)

    def cover():
        tokens = names[:names.index("ERROR") + 1]
        miss = [k for k in names if k not in tokens and not any(k in accepts(t) for t in types)]
        return f"no wrapper for {miss}" if miss else ""
    guard("lemma: every node kind has a wrapper", None, cover)

    # ---- raw kinds
    d = discriminants(enum)

    def raw():
        fs = [(p, i) for p, i in walk(items) if i["k"] == "fn" and i["n"] in ("kind_from_raw", "kind_to_raw", "from")]
        c = Raw(items, d)
        to = next((i for p, i in fs if i["n"] == "kind_to_raw"), None)
        fr = next((i for p, i in fs if i["n"] == "kind_from_raw"), None)
        if not to or not fr:
            raise Unsupported("no raw conversion")
        if len(set(d.values())) != len(d):
            return "two kinds with the same number"
        for k, v in kinds.items():
            try:
                r = c.call(to, [v])
                b = c.call(fr, [r])
            except Panic as x:
                return f"{k}: {x}"
            if b != v:
                return f"{k} becomes {b[0] if isinstance(b, Enum) else b}"
        return ""
    guard("kind_from_raw(kind_to_raw(k)) == k for every kind", "syntax::WatLanguage::kind_from_raw", raw, len(names))
    return {"obligations": obs, "trusted": ["deduct/conc.py and the rules of transmute and `as` for field-less enums"],
            "assumptions": ["casts look at a node only through kind() (anything else is reported as out of reach)"], "back_ends": {"exact evaluation": sum(o["vcs"] for o in obs)},
            "solver_s": 0.0, "probes": [], "complete": True}


class Panic(Exception):
    pass


class Raw(Conc):
    def __init__(s, items, d):
        super().__init__(items)
        s.d, s.back = d, {v: k for k, v in d.items()}
        s.froms = [i for p, i in walk(items) if i["k"] == "fn" and i["n"] == "from" and p and p[-1][2] and "From<SyntaxKind>" in p[-1][2].replace(" ", "")]
        s.froms += [i for p, i in walk(items) if i["k"] == "fn" and i["n"] == "from" and p and p[-1][2] and p[-1][2].startswith("From")] if not s.froms else []

    def ev(s, e, env):
        if e["k"] == "macro" and e["n"] in ("assert", "debug_assert"):
            if not s.ev(e["a"][0], env):
                raise Panic("assertion fails: " + e["t"])
            return ()
        if e["k"] == "path" and e["p"].startswith("SyntaxKind::"):
            return Enum((e["p"].split("::")[-1], ()))
        if e["k"] == "cast":
            v = s.ev(e["e"], env)
            if isinstance(v, Enum) and not v[1]:
                v = s.d[v[0]]
            w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i32": 32, "i64": 64, "i16": 16}.get(e["ty"])
            if not isinstance(v, int) or w is None:
                raise Unsupported("cast")
            return v % (1 << w)
        if e["k"] == "field":
            v = s.ev(e["e"], env)
            if isinstance(v, Struct):
                return v.f[e["n"]]
        return super().ev(e, env)

    def ev_call(s, e, env):
        p = e["f"].get("p", "").split("::")
        a = [s.ev(x, env) for x in e["a"]]
        if p[-1] == "transmute":
            if a[0] not in s.back:
                raise Panic(f"no kind has the number {a[0]}")
            return Enum((s.back[a[0]], ()))
        if p[-1] in ("Self", "SyntaxKind") and len(a) == 1:
            return Struct("rowan::SyntaxKind", {"0": a[0]})
        if p[-1] == "from" and len(s.froms) == 1:
            return s.call(s.froms[0], a)
        return super().ev_call(e, env)

    def mcall(s, e, env):
        if e["m"] == "into" and len(s.froms) == 1:
            v = s.ev(e["r"], env)
            if isinstance(v, Enum):
                return s.call(s.froms[0], [v])
        return super().mcall(e, env)


FILES = [(f, None) for f in ("lib.rs", "ast/mod.rs", "ast/instr.rs", "ast/module.rs", "ast/ty.rs")]
accessors = contracts("P04", True, FILES, lambda repo: Contracts(repo, "syntax", prepare),
                      trusted=["z3 4.x, deduct/symv.py and astdump", "rowan: children, children_with_tokens, kind, text; rowan::ast::support is what specs/syntax/support.rs says"],
                      assume=["SyntaxKind comparisons are exact; clone, borrow and deref keep the value"])
