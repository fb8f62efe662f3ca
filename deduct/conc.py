"""Exact evaluation of closed Rust expressions (tables): no symbolic values. Anything else is Unsupported."""
from .src import Unsupported, walk


class Struct:
    def __init__(s, name, f):
        s.name, s.f = name, f

    def __eq__(s, o):
        return isinstance(o, Struct) and (s.name, s.f) == (o.name, o.f)

    def __repr__(s):
        return f"{s.name}{s.f}"


class Enum(tuple):
    """(variant name, arguments)"""


class Ret(Exception):
    def __init__(s, v):
        s.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


def bad(why):
    raise Unsupported("table evaluation: " + why)


class Conc:
    def __init__(s, items):
        s.fns, s.consts, s.enums, s.structs = {}, {}, {}, {}
        for path, i in walk(items):
            if i["k"] == "fn":
                s.fns[i["n"]] = i
            elif i["k"] == "const":
                s.consts[i["n"]] = i["e"]
            elif i["k"] == "enum":
                s.enums[i["n"]] = i
            elif i["k"] == "structdef":
                s.structs[i["n"]] = i
        s.steps = 0

    def const(s, n):
        return s.ev(s.consts[n], [{}])

    def call(s, f, args):
        if len(args) != len(f["i"]):
            bad("arity of " + f["n"])
        env = [{}]
        for p, a in zip(f["i"], args):
            s.bind(p["p"], a, env)
        try:
            return s.ev(f["b"], env)
        except Ret as r:
            return r.v

    def bind(s, p, v, env):
        if not s.match(p, v, env):
            bad("refutable pattern in a binding")

    def match(s, p, v, env):
        k = p["k"]
        if k == "pid":
            if p["n"][0].isupper():
                return s.match({"k": "ppath", "p": p["n"]}, v, env)
            if p.get("sub") and not s.match(p["sub"], v, env):
                return False
            env[-1][p["n"]] = v
            return True
        if k == "pwild":
            return True
        if k == "pref":
            return s.match(p["e"], v, env)
        if k == "ptuple":
            if not isinstance(v, tuple) or len(v) != len(p["e"]):
                bad("tuple pattern")
            return all(s.match(q, x, env) for q, x in zip(p["e"], v))
        if k == "plit":
            return s.ev(p["v"], env) == v
        if k == "por":
            return any(s.match(q, v, env) for q in p["e"])
        if k == "ppath":
            if isinstance(v, Enum):
                return v[0] == p["p"].split("::")[-1]
            return s.ev({"k": "path", "p": p["p"]}, env) == v
        if k == "pts":
            if not isinstance(v, Enum):
                bad("variant pattern")
            return v[0] == p["p"].split("::")[-1] and len(v[1]) == len(p["e"]) and all(s.match(q, x, env) for q, x in zip(p["e"], v[1]))
        if k == "prange":
            lo = s.ev(p["lo"], env) if p["lo"] else None
            hi = s.ev(p["hi"], env) if p["hi"] else None
            return (lo is None or lo <= v) and (hi is None or (v <= hi if p["incl"] else v < hi))
        bad("pattern " + k)

    def look(s, n, env):
        for d in reversed(env):
            if n in d:
                return d
        return None

    def ev(s, e, env):
        s.steps += 1
        if s.steps > 3_000_000:
            bad("too long")
        k = e["k"]
        if k in ("str", "char", "bool"):
            return e["v"]
        if k == "int":
            return int(e["v"])
        if k == "ref":
            return s.ev(e["e"], env)
        if k in ("tuple",):
            return tuple(s.ev(x, env) for x in e["e"])
        if k == "array":
            return [s.ev(x, env) for x in e["e"]]
        if k == "repeat":
            return [s.ev(e["e"], env) for _ in range(s.ev(e["n"], env))]
        if k == "macro":
            if e["n"] in ("vec",) and e["a"] is not None:
                return [s.ev(x, env) for x in e["a"]]
            if e["n"] in ("debug_assert", "debug_assert_eq", "assert", "assert_eq"):
                return ()
            if e["n"] == "concat":
                return "".join(str(s.ev(x, env)) for x in e["a"])
            bad("macro " + e["n"])
        if k == "path":
            p = e["p"].split("::")
            if len(p) == 1:
                d = s.look(p[0], env)
                if d is not None:
                    return d[p[0]]
            if p[-1] in s.consts and (len(p) == 1 or p[0] not in s.enums):
                return s.const(p[-1])
            if p[-1][0].isupper() and len(p) > 1 or p[-1] in ("None",) or len(p) == 1 and p[-1][0].isupper():
                return Enum((p[-1], ()))
            if p[-1] in s.fns:
                return ("fn", s.fns[p[-1]])
            bad("path " + e["p"])
        if k == "struct":
            if e.get("rest"):
                bad("struct update")
            return Struct(e["p"].split("::")[-1], {n: s.ev(x, env) for n, x in e["f"]})
        if k == "field":
            v = s.ev(e["e"], env)
            if isinstance(v, Struct):
                return v.f[e["n"]]
            if isinstance(v, tuple) and e["n"].isdigit():
                return v[int(e["n"])]
            bad("field " + e["n"])
        if k == "index":
            return s.ev(e["e"], env)[s.ev(e["i"], env)]
        if k == "cast":
            v = s.ev(e["e"], env)
            if isinstance(v, Enum):
                return s.discriminant(v, e)
            if isinstance(v, int):
                w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}.get(e["ty"])
                return v if w is None else v % (1 << w)
            bad("cast")
        if k == "un":
            v = s.ev(e["e"], env)
            return {"!": lambda: not v if isinstance(v, bool) else bad("!"), "-": lambda: -v, "*": lambda: v}[e["o"]]()
        if k == "bin":
            o = e["o"]
            if o in ("&&", "||"):
                a = s.ev(e["a"], env)
                return s.ev(e["b"], env) if a == (o == "&&") else a
            a, b = s.ev(e["a"], env), s.ev(e["b"], env)
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b,
                 "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "%": lambda: a % b, "/": lambda: a // b, "|": lambda: a | b, "&": lambda: a & b,
                 "<<": lambda: a << b, ">>": lambda: a >> b}
            if o in f:
                return f[o]()
            if o in ("+=", "-=", "|="):
                s.assign(e["a"], f[o[0]](), env)
                return ()
            bad("operator " + o)
        if k == "assign":
            s.assign(e["a"], s.ev(e["b"], env), env)
            return ()
        if k == "block":
            env = env + [{}]
            v = ()
            for i, st in enumerate(e["s"]):
                v = ()
                if st["k"] == "let":
                    if st["e"] is None:
                        bad("let without a value")
                    x = s.ev(st["e"], env)
                    if not s.match(st["p"], x, env):
                        if st.get("else"):
                            s.ev(st["else"], env)
                        bad("let pattern")
                elif st["k"] == "item":
                    if st["i"]["k"] == "const":
                        env[-1][st["i"]["n"]] = s.ev(st["i"]["e"], env)
                    elif st["i"]["k"] == "fn":
                        env[-1][st["i"]["n"]] = ("fn", st["i"])
                    elif st["i"]["k"] != "use":
                        bad("item")
                else:
                    x = s.ev(st["e"], env)
                    v = () if st["semi"] else x
            return v
        if k == "if":
            env = env + [{}]
            if s.cond(e["c"], env):
                return s.ev(e["t"], env)
            return s.ev(e["e"], env) if e["e"] else ()
        if k in ("iflet", "matches"):
            return s.cond(e, env)
        if k == "match":
            v = s.ev(e["e"], env)
            for a in e["a"]:
                en = env + [{}]
                if s.match(a["p"], v, en) and (not a["g"] or s.ev(a["g"], en)):
                    return s.ev(a["e"], en)
            bad("no arm")
        if k == "for":
            for x in s.iter(s.ev(e["e"], env)):
                en = env + [{}]
                s.bind(e["p"], x, en)
                try:
                    s.ev(e["b"], en)
                except Brk:
                    break
                except Cont:
                    continue
            return ()
        if k == "range":
            return list(range(s.ev(e["lo"], env), s.ev(e["hi"], env) + bool(e["incl"])))
        if k == "return":
            raise Ret(s.ev(e["e"], env) if e["e"] else ())
        if k == "break":
            raise Brk()
        if k == "continue":
            raise Cont()
        if k == "closure":
            return ("closure", e, env)
        if k == "unsafe":
            return s.ev(e["b"], env)
        if k == "call":
            return s.ev_call(e, env)
        if k == "mcall":
            return s.mcall(e, env)
        bad(k)

    def cond(s, e, env):
        if e["k"] == "iflet":
            return s.match(e["p"], s.ev(e["e"], env), env)
        if e["k"] == "matches":
            en = env + [{}]
            return s.match(e["p"], s.ev(e["e"], env), en) and (not e["g"] or s.ev(e["g"], en))
        if e["k"] == "bin" and e["o"] == "&&":
            return s.cond(e["a"], env) and s.cond(e["b"], env)
        return s.ev(e, env)

    def assign(s, t, v, env):
        if t["k"] == "path":
            d = s.look(t["p"], env)
            if d is not None:
                d[t["p"]] = v
                return
        if t["k"] == "un" and t["o"] == "*":
            return s.assign(t["e"], v, env)
        if t["k"] == "field":
            o = s.ev(t["e"], env)
            if isinstance(o, Struct):
                o.f[t["n"]] = v
                return
        bad("assignment")

    def iter(s, v):
        if isinstance(v, dict):
            return list(v.items())
        if isinstance(v, list):
            return v
        bad("iteration")

    def apply(s, f, args):
        if f[0] == "fn":
            return s.call(f[1], args)
        _, e, env = f
        en = env + [{}]
        for p, a in zip(e["i"], args):
            s.bind(p, a, en)
        try:
            return s.ev(e["e"], en)
        except Ret as r:
            return r.v

    def ev_call(s, e, env):
        args = [s.ev(a, env) for a in e["a"]]
        if e["f"]["k"] != "path":
            return s.apply(s.ev(e["f"], env), args)
        p = e["f"]["p"].split("::")
        d = s.look(p[0], env) if len(p) == 1 else None
        if d is not None:
            return s.apply(d[p[0]], args)
        if p[-1] == "LazyLock" or p[-2:] in (["LazyLock", "new"], ["Lazy", "new"], ["OnceLock", "new"]):
            return s.apply(args[0], [])
        if p[-1] in ("with_capacity_and_hasher", "with_capacity", "default", "new", "with_hasher") and p[-2:-1] in (["HashMap"], ["FxHashMap"], ["IndexMap"], ["BTreeMap"]):
            return {}
        if p[-1] in ("with_capacity", "new") and p[-2:-1] == ["Vec"]:
            return []
        if p[-1] in ("from", "from_iter") and p[-2:-1] in (["HashMap"], ["FxHashMap"], ["BTreeMap"]):
            return dict(s.iter(args[0]))
        if p[-1] in ("from", "from_iter") and p[-2:-1] in (["Vec"], ["String"]):
            return list(args[0]) if p[-2] == "Vec" else args[0]
        if p[-1] in s.fns:
            return s.call(s.fns[p[-1]], args)
        if p[-1][0].isupper():
            if p[-1] in s.structs:
                return Struct(p[-1], {str(i): a for i, a in enumerate(args)})
            return Enum((p[-1], tuple(args)))
        if p[-1] == "transmute":
            return ("transmute", args[0])
        bad("call of " + "::".join(p))

    def mcall(s, e, env):
        m = e["m"]
        r = s.ev(e["r"], env)
        a = [s.ev(x, env) for x in e["a"]]
        if m in ("clone", "to_vec", "to_owned", "into_iter", "iter", "into", "to_string", "as_str", "copied", "cloned", "as_slice", "deref", "iter_mut"):
            return list(r) if isinstance(r, list) else dict(r) if isinstance(r, dict) and m in ("clone", "to_owned") else list(r.items()) if isinstance(r, dict) else r
        if isinstance(r, dict):
            if m == "insert":
                o = Enum(("Some", (r[a[0]],))) if a[0] in r else Enum(("None", ()))
                r[a[0]] = a[1]
                return o
            if m == "extend":
                r.update(dict(s.iter(a[0])))
                return ()
            if m == "get":
                return Enum(("Some", (r[a[0]],))) if a[0] in r else Enum(("None", ()))
            if m == "remove":
                r.pop(a[0], None)
                return ()
            if m in ("shrink_to_fit", "reserve"):
                return ()
        if isinstance(r, list):
            if m == "push":
                r.append(a[0])
                return ()
            if m == "extend":
                r.extend(s.iter(a[0]))
                return ()
            if m == "map":
                return [s.apply(a[0], [x]) for x in r]
            if m == "chain":
                return r + s.iter(a[0])
            if m == "flat_map":
                return [y for x in r for y in s.iter(s.apply(a[0], [x]))]
            if m == "for_each":
                for x in r:
                    s.apply(a[0], [x])
                return ()
            if m == "collect":
                if r and all(isinstance(x, tuple) and not isinstance(x, Enum) and len(x) == 2 and isinstance(x[0], str) for x in r):
                    return dict(r)
                return r
            if m == "len":
                return len(r)
        if m == "unwrap" and isinstance(r, Enum) and r[0] in ("Some", "Ok"):
            return r[1][0]
        bad("method " + m)

    def discriminant(s, v, e):
        name = None
        if e["e"]["k"] == "path" and "::" in e["e"]["p"]:
            name = e["e"]["p"].split("::")[-2]
        c = [i for n, i in s.enums.items() if (name is None or n == name) and any(x["n"] == v[0] for x in i["v"])]
        if len(c) != 1:
            bad("discriminant")
        return discriminants(c[0])[v[0]]


def discriminants(enum):
    d, n = {}, 0
    for v in enum["v"]:
        if v["d"] is not None:
            if v["d"]["k"] != "int":
                bad("discriminant")
            n = int(v["d"]["v"])
        d[v["n"]] = n
        n += 1
    return d
