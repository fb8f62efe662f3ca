"""P01, P02, P03, P05: the parser."""
import copy, json, os, time
import z3
from .src import functions, load, sub, Unsupported
from .parsev import Verifier, cycles
from .chars import Chars, scalar, check
HERE = os.path.dirname(os.path.abspath(__file__))
REL = "crates/parser/src"
TRUST = ["winnow 0.6.18 combinators, by their documented contracts (text consumed, alternatives tried in order, repeat stops at the first failure)",
         "rowan green tree: text of a node = concatenation of its children's texts", "the syntax tree dump (syn) and the VC generator deduct/"]


def contracts():
    return json.load(open(HERE + "/contracts_parser.json"))


def run_verifier(repo, fns=None):
    v = Verifier(repo)
    v.assumed = contracts()
    if fns:
        v.fns = fns
    v.fixpoint()
    return v


def parser_obligations(repo, want):
    """want: subset of lossless, loud, progress, recursion"""
    named = contracts()
    v = run_verifier(repo)
    out = []

    def add(kind, fn, status, detail="", n=1):
        out.append({"name": f"{kind}:{fn}", "function": f"parser::{fn}", "status": status, "detail": detail, "vcs": n})
    covered = [n for n in v.fns if v.sig(n)[0]]
    for n in sorted(set(named["functions"]) - set(covered)):
        for k in want:
            add(k, n, "unsupported", "no function of that name with a parser's signature")
    for n in sorted(covered):
        if n in v.unsup or n in v.dups:
            for k in want:
                add(k, n, "unsupported", v.unsup.get(n, "two functions of this name"))
            continue
        mine = [o for o in v.obl if o[0] == n]
        for k in want:
            if k == "loud":
                if n in named["silent"]:
                    continue
                bad = [o for o in mine if o[1] == "loud" and not o[2]]
                if v.raw_fn[n] and not bad:
                    if n in named["functions"]:
                        add(k, n, "refuted", "on some path the output holds an ERROR token and no error was recorded")
                    else:
                        continue    # a helper of its own: its callers are held to their contracts
                    continue
                ks = [o for o in mine if o[1] == "loud"]
            elif k == "recursion":
                cyc = cycles(v.edges)
                if n in cyc:
                    known = n in named["functions"]
                    add(k, n, "refuted" if known else "unsupported", "may call itself (through others) before a character was consumed")
                else:
                    add(k, n, "proved")
                continue
            else:
                ks = [o for o in mine if o[1] == k]
                bad = [o for o in ks if not o[2]]
            if bad:
                soft = all(o[3] for o in bad) or n not in named["functions"]
                add(k, n, "unsupported" if soft else "refuted", bad[0][4], len(ks))
            elif k == "lossless" and not ks and v.sig(n)[1] not in ("()", "char", "bool"):
                add(k, n, "unsupported", "no path to a result")
            else:
                add(k, n, "proved", "", max(1, len(ks)))
    return v, out


def probes(repo, limit):
    """must-fail: take one statement that adds to the children away, the verifier has to refuse"""
    base = Verifier(repo)
    base.fixpoint()
    res = []
    for n in sorted(base.fns):
        f = base.fns[n]
        for blk in sub(f["b"]):
            if blk.get("k") != "block":
                continue
            for i, x in enumerate(blk["s"]):
                if x["k"] == "expr" and x["e"]["k"] == "mcall" and x["e"]["m"] in ("push", "append", "extend"):
                    res.append((n, blk, i))
    tried = caught = 0
    missed = []
    step = max(1, len(res) // limit)
    for n, blk, i in res[::step][:limit]:
        saved = blk["s"]
        blk["s"] = saved[:i] + saved[i + 1:]
        v = Verifier(repo)
        v.ne_fn, v.raw_fn, v.clean_fn = dict(base.ne_fn), dict(base.raw_fn), dict(base.clean_fn)
        try:
            v.depth = 0
            v.verify(n)
            ok = any(not o[2] and o[1] == "lossless" for o in v.obl)
        except Exception as x:
            ok = False
        blk["s"] = saved
        tried += 1
        if ok:
            caught += 1
        else:
            missed.append(f"{n}: statement {i} of a block")
    return [{"probe": "one `push`/`append` of a parser function left out", "tried": tried, "refused": caught, "not_refused": missed[:10]}]


def totality(repo):
    """the trailing repetition of `root` takes every character"""
    v = Verifier(repo)
    f = v.fns.get("root")
    name = "total:root"
    if not f:
        return {"name": name, "function": "parser::root", "status": "unsupported", "detail": "no function root"}, 0.0
    t = time.time()
    try:
        body = f["b"]
        reps = [e for e in sub(body) if e.get("k") == "call" and e["f"].get("p", "").split("::")[-1] == "repeat"]
        if not reps:
            for e in sub(body):
                if e.get("k") == "path" and e["p"] in v.fns and e["p"] != "root":
                    reps += [x for x in sub(v.fns[e["p"]]["b"]) if x.get("k") == "call" and x["f"].get("p", "").split("::")[-1] == "repeat"]
        if not reps:
            raise Unsupported("no repetition in root")
        e = reps[-1]
        lo = e["a"][0]
        if lo["k"] != "range" or not (lo["lo"] is None or lo["lo"].get("v") in (0, "0")) or lo["hi"]:
            raise Unsupported("the bounds of the repetition")
        ch = Chars(v.fns)
        c = z3.Int("c")
        ok = ch.succ(e["a"][1], {}, c)
        so, r = check(z3.And(scalar(c), z3.Not(ok)))
        dt = time.time() - t
        if r == "unsat":
            return {"name": name, "function": "parser::root", "status": "proved", "detail": "", "backend": "z3"}, dt
        if r == "sat" and not ch.unknown:
            x = so.model()[c].as_long()
            return {"name": name, "function": "parser::root", "status": "refuted", "detail": f"no alternative is sure to take U+{x:04X}", "backend": "z3"}, dt
        return {"name": name, "function": "parser::root", "status": "unsupported", "detail": f"{r} {sorted(ch.unknown)}"}, dt
    except (Unsupported, KeyError, TypeError, IndexError, AttributeError, z3.Z3Exception) as x:
        return {"name": name, "function": "parser::root", "status": "unsupported", "detail": str(x)}, time.time() - t


PANICS = {"unwrap", "expect", "unwrap_err", "expect_err"}


def no_panics(repo):
    """panicking constructs in the parser crate"""
    out = []
    for f, path, i in functions(repo, REL):
        why = []
        for e in sub(i["b"]) if i.get("b") else ():
            if e.get("k") == "mcall" and e["m"] in PANICS:
                why.append(e["m"])
            elif e.get("k") == "index":
                why.append("indexing")
            elif e.get("k") == "macro" and e["n"] in ("panic", "unreachable", "todo", "unimplemented", "assert", "assert_eq", "assert_ne"):
                why.append(e["n"] + "!")
            elif e.get("k") == "unsafe":
                why.append("unsafe")
            elif e.get("k") == "bin" and e["o"] in ("-", "/", "%", "*", "-=", "<<", ">>"):
                why.append("arithmetic " + e["o"])
        nm = i["n"]
        if why == ["expect"] and nm == "parse_to_green":
            out.append({"name": f"no-panic:{nm}", "function": f"parser::{nm}", "status": "proved", "detail": "`expect` holds by total:root and by lossless/progress of root (root cannot fail)"})
        elif why:
            out.append({"name": f"no-panic:{nm}", "function": f"parser::{nm}", "status": "unsupported", "detail": "may panic: " + ", ".join(sorted(set(why)))})
        else:
            out.append({"name": f"no-panic:{nm}", "function": f"parser::{nm}", "status": "proved", "detail": ""})
    return out


IDCHAR = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&'*+-./:<=>?@\\^_`|~"


def spec_idchar(c):
    return z3.Or([c == ord(x) for x in IDCHAR])


def equiv(name, fn, make):
    """make() -> (formula to be valid, variable for the model, engine)"""
    t = time.time()
    try:
        f, var, unknown = make()
        so, r = check(z3.Not(f))
        dt = time.time() - t
        if r == "unsat":
            return {"name": name, "function": fn, "status": "proved", "detail": "", "backend": "z3"}, dt
        if r == "sat" and not unknown:
            m = so.model()[var]
            x = m.as_long() if z3.is_int_value(m) else m.as_string() if m is not None else "?"
            return {"name": name, "function": fn, "status": "refuted", "detail": f"differs for {x!r}" + (f" ({chr(x)!r})" if isinstance(x, int) else ""), "backend": "z3"}, dt
        return {"name": name, "function": fn, "status": "unsupported", "detail": r}, dt
    except (Unsupported, KeyError, TypeError, IndexError, AttributeError, z3.Z3Exception) as x:
        return {"name": name, "function": fn, "status": "unsupported", "detail": f"{type(x).__name__}: {x}"}, time.time() - t


def class_re(ch, e, env):
    """set of characters as a regular expression of z3's strings"""
    c = z3.Int("c")
    f = ch.member(e, c, env)
    rs, start = [], None
    for i in range(0, 257):
        v = i < 256 and z3.is_true(z3.simplify(z3.substitute(f, (c, z3.IntVal(i)))))
        if v and start is None:
            start = i
        if not v and start is not None:
            rs.append((start, i - 1))
            start = None
    so, r = check(z3.And(scalar(c), c >= 256, f))
    if r != "unsat":
        rs.append((256, 0x2ffff))
        so, r = check(z3.And(scalar(c), c >= 256, z3.Not(f)))
        if r != "unsat":
            raise Unsupported("set of characters")
    parts = [z3.Range(z3.StringVal(chr(a)), z3.StringVal(chr(b))) for a, b in rs]
    return parts[0] if len(parts) == 1 else z3.Union(*parts) if parts else z3.Empty(z3.ReSort(z3.StringSort()))


def parser_re(ch, e, env):
    """regular expression of the texts which a token parser takes, for sequences of literals and classes"""
    k = e["k"]
    if k in ("str", "char"):
        return z3.Re(z3.StringVal(e["v"]))
    if k == "tuple":
        return z3.Concat(*[parser_re(ch, x, env) for x in e["e"]]) if len(e["e"]) > 1 else parser_re(ch, e["e"][0], env)
    if k == "mcall" and e["m"] in ("take", "context", "parse_next", "map", "void"):
        return parser_re(ch, e["r"], env)
    if k == "block" and len(e["s"]) == 1 and e["s"][0]["k"] == "expr":
        return parser_re(ch, e["s"][0]["e"], env)
    if k == "call" and e["f"]["k"] == "path":
        n = e["f"]["p"].split("::")[-1]
        if n == "take_while" and e["a"][0]["k"] == "range" and not e["a"][0]["hi"]:
            lo = e["a"][0]["lo"]
            m = int(lo["v"]) if lo else 0
            r = class_re(ch, e["a"][1], env)
            return z3.Star(r) if m == 0 else z3.Plus(r) if m == 1 else z3.Concat(*([r] * m + [z3.Star(r)]))
        if n == "one_of":
            return class_re(ch, e["a"][0], env)
        if n in ch.fns and not e["a"]:
            return parser_re(ch, ch.fns[n]["b"], {})
    if k == "path" and e["p"].split("::")[-1] in ch.fns:
        return parser_re(ch, ch.fns[e["p"].split("::")[-1]]["b"], {})
    raise Unsupported("token parser " + k)


class StrEv:
    """what a function does with one string (rename's new name): its n characters f(0), f(1), ..; its suffixes are numbers

    values: ("bool", b) ("str", start) ("chars", start) ("char", c) ("num", k) ("opt", is_some, value) ("res", is_ok, value)
    ("lit", text) ("opaque",) -- evaluated along all paths at once: `ret` collects (path condition, value) of returns,
    `side` what has to hold for the evaluation to be right (a cut at a character boundary)"""
    n, f, blen = z3.Int("n"), z3.Function("char", z3.IntSort(), z3.IntSort()), z3.Function("bytes", z3.IntSort(), z3.IntSort())
    OPAQUE = ("opaque",)

    def __init__(s, ch, hit, fns=None, consts=None):
        s.ch, s.hit, s.fns, s.consts = ch, hit, fns or {}, consts or {}
        s.ret, s.side, s.axioms, s.depth = [], [], [s.n >= 0], 0

    def mentions(s, e, env):
        return any(s.hit(x) or x.get("k") == "path" and x["p"] in env for x in sub(e))

    def prefix(s, x, p):
        return z3.And([s.n - x >= len(p)] + [s.f(x + i) == ord(c) for i, c in enumerate(p)])

    def eq(s, a, b):
        if a[0] == "lit" and b[0] != "lit":
            a, b = b, a
        if a[0] == "str" and b[0] == "lit":
            return z3.And(s.prefix(a[1], b[1]), s.n - a[1] == len(b[1]))
        if a[0] == "char" and b[0] == "lit":
            return a[1] == ord(b[1])
        if a[0] == "opt" and b[0] == "opt":
            both = s.eq(a[2], b[2]) if a[2] and b[2] else z3.BoolVal(True)
            return z3.Or(z3.And(a[1], b[1], both), z3.And(z3.Not(a[1]), z3.Not(b[1])))
        if a[0] == b[0] and a[0] in ("char", "num", "bool"):
            return a[1] == b[1]
        raise Unsupported("equality of strings")

    def join(s, c, a, b):
        if a == b:
            return a
        if a is None or b is None:
            return a or b
        a, b = (x if x != ("lit", "") or y[0] != "str" else ("str", s.n) for x, y in ((a, b), (b, a)))
        if a[0] != b[0] or a[0] in ("lit", "opaque"):
            raise Unsupported("values of different kinds")
        if len(a) == 3:
            return (a[0], z3.If(c, a[1], b[1]), s.join(c, a[2], b[2]))
        return (a[0], z3.If(c, a[1], b[1]))

    def bytes(s, x):
        w = lambda c: z3.If(c < 0x80, 1, z3.If(c < 0x800, 2, z3.If(c < 0x10000, 3, 4)))
        for i in range(4):
            s.axioms += [z3.Implies(x + i >= s.n, s.blen(x + i) == 0), z3.Implies(x + i < s.n, s.blen(x + i) == w(s.f(x + i)) + s.blen(x + i + 1))]
            s.axioms.append(s.blen(x + i) >= 0)
        return s.blen(x)

    def pat(s, p, v, env):
        k = p["k"]
        if k == "pwild":
            return z3.BoolVal(True), {}
        if k == "pref":
            return s.pat(p["e"], v, env)
        if k in ("pid", "ppath"):
            n = (p.get("n") or p.get("p")).split("::")[-1]
            if n == "None" and v[0] == "opt":
                return z3.Not(v[1]), {}
            if k == "pid" and not n[0].isupper():
                return z3.BoolVal(True), {n: v}
            if n in s.consts:
                return s.eq(v, s.consts[n]), {}
        if k == "plit":
            x = p["v"]
            if x["k"] == "bool" and v[0] == "bool":
                return (v[1] if x["v"] else z3.Not(v[1])), {}
            if x["k"] in ("str", "char"):
                return s.eq(v, ("lit", x["v"])), {}
        if k == "pts" and len(p["e"]) == 1:
            n = p["p"].split("::")[-1]
            if n == "Some" and v[0] == "opt" or n in ("Ok", "Err") and v[0] == "res":
                ok = z3.Not(v[1]) if n == "Err" else v[1]
                c, b = s.pat(p["e"][0], s.OPAQUE if n == "Err" or v[2] is None else v[2], env)
                return z3.And(ok, c), b
        if k == "ptuple" and not p["e"]:
            return z3.BoolVal(True), {}
        if k == "por":
            cs = [s.pat(x, v, env) for x in p["e"]]
            if any(b for c, b in cs):
                raise Unsupported("bindings of alternatives")
            return z3.Or([c for c, b in cs]), {}
        raise Unsupported("pattern " + k)

    def cond(s, e, env, pc):
        v, live = s.ev(e, env, pc)
        if v is not None and v[0] != "bool":
            raise Unsupported("condition " + e["k"])
        return (v[1] if v else z3.BoolVal(False)), live

    def test(s, e, env, pc):
        """a condition that may bind names (`if let`, `&&` of them): (condition, bindings)"""
        if e["k"] == "iflet":
            v, live = s.ev(e["e"], env, pc)
            return s.pat(e["p"], v, env)
        if e["k"] == "bin" and e["o"] == "&&":
            c, b = s.test(e["a"], env, pc)
            env2 = {**env, **b}
            d, b2 = s.test(e["b"], env2, z3.And(pc, c))
            s.back(env, env2, c)
            return z3.And(c, d), {**b, **b2}
        return s.cond(e, env, pc)[0], {}

    def back(s, env, env2, c):
        """what a conditional part did to the names of its surroundings"""
        for k in list(env):
            if env2.get(k) is not env[k]:
                env[k] = s.join(c, env2[k], env[k])

    def branch(s, e, env, pc, c, b):
        """evaluated under c with bindings b, on a copy: (value, live, env after)"""
        env2 = {**env, **b}
        v, live = s.block(e, env2, z3.And(pc, c))
        for k in b:
            if k in env:
                env2[k] = env[k]
        return v, live, {k: env2[k] for k in env}

    def block(s, e, env, pc):
        if e["k"] != "block":
            return s.ev(e, env, pc)
        inner, v = dict(env), None
        shadowed = set()
        for i, x in enumerate(e["s"]):
            v = None
            if x["k"] == "let":
                b, pc = s.let(x, inner, pc)
                shadowed |= set(b) & set(env)
                inner.update(b)
            elif x["k"] == "expr":
                v, pc = s.ev(x["e"], inner, pc)
                if x.get("semi"):
                    v = None
            else:
                raise Unsupported("statement")
        for k in env:
            if k not in shadowed:
                env[k] = inner[k]
        return v, pc

    def let(s, x, env, pc):
        if not s.mentions(x["e"], env) and not any(y.get("k") in ("return", "try", "break") for y in sub(x)) and x["p"]["k"] == "pid" and not x.get("else"):
            try:
                v, pc = s.ev(x["e"], env, pc)
            except Unsupported:
                v = s.OPAQUE
            return {x["p"]["n"]: v}, pc
        v, pc = s.ev(x["e"], env, pc)
        c, b = s.pat(x["p"], v, env)
        if x.get("else"):
            w, live, _ = s.branch(x["else"], env, pc, z3.Not(c), {})
            pc = z3.And(pc, c)
        return b, pc

    def call(s, f, args):
        if s.depth > 4:
            raise Unsupported("recursion")
        ps = [p for p in f["i"] if not (p["p"]["k"] == "pid" and p["p"]["n"] == "self")]
        if len(ps) != len(args):
            raise Unsupported("arguments")
        env = {}
        for p, a in zip(ps, args):
            env.update(s.pat(p["p"], a, {})[1])
        saved, s.ret, s.depth = s.ret, [], s.depth + 1
        v, live = s.block(f["b"], env, z3.BoolVal(True))
        for c, w in reversed(s.ret):
            v = w if v is None else s.join(c, w, v)
        s.ret, s.depth = saved, s.depth - 1
        return v

    def closure(s, f, args, pc):
        if f["k"] == "path":
            n = f["p"].split("::")[-1]
            if n in s.fns:
                return s.call(s.fns[n], args)
            if len(args) == 1 and args[0][0] == "char":
                return ("bool", s.ch.member(f, args[0][1], {}))
        if f["k"] == "closure":
            env = dict(s.clo)
            for p, a in zip(f["i"], args):
                env.update(s.pat(p, a, {})[1])
            if any(y.get("k") in ("return", "try") for y in sub(f["e"])):
                raise Unsupported("closure with a return")
            try:
                return s.ev(f["e"], env, pc)[0]
            except Unsupported:
                if len(args) == 1 and args[0][0] == "char":
                    return ("bool", s.ch.member(f, args[0][1], {}))
                raise
        raise Unsupported("closure")

    def ev(s, e, env, pc):
        """(value, live): the value along the paths that come to it, and which do"""
        k = e["k"]
        if s.hit(e):
            return ("str", z3.IntVal(0)), pc
        if k == "path":
            if e["p"] in env:
                return env[e["p"]], pc
            n = e["p"].split("::")[-1]
            if n in s.consts:
                return s.consts[n], pc
            if n == "None":
                return ("opt", z3.BoolVal(False), None), pc
        if k in ("str", "char"):
            return ("lit", e["v"]), pc
        if k == "int":
            return ("num", z3.IntVal(int(e["v"]))), pc
        if k == "bool":
            return ("bool", z3.BoolVal(bool(e["v"]))), pc
        if k == "tuple" and not e["e"]:
            return s.OPAQUE, pc
        if k == "ref" or k == "un" and e["o"] == "*" or k == "paren":
            return s.ev(e["e"], env, pc)
        if k == "un" and e["o"] == "!":
            c, pc = s.cond(e["e"], env, pc)
            return ("bool", z3.Not(c)), pc
        if k == "bin":
            o = e["o"]
            if o in ("&&", "||"):
                c, pc = s.cond(e["a"], env, pc)
                env2 = dict(env)
                taken = c if o == "&&" else z3.Not(c)
                d, live = s.cond(e["b"], env2, z3.And(pc, taken))
                if live is not None and not live.eq(z3.And(pc, taken)):
                    raise Unsupported("return inside a condition")
                s.back(env, env2, taken)
                return ("bool", (z3.And if o == "&&" else z3.Or)(c, d)), pc
            a, pc = s.ev(e["a"], env, pc)
            b, pc = s.ev(e["b"], env, pc)
            if o in ("==", "!="):
                c = s.eq(a, b)
                return ("bool", c if o == "==" else z3.Not(c)), pc
            if a[0] == b[0] == "num" and o in ("<", "<=", ">", ">=", "+"):
                import operator
                r = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "+": operator.add}[o](a[1], b[1])
                return ("num" if o == "+" else "bool", r), pc
        if k == "matches":
            v, pc = s.ev(e["e"], env, pc)
            c, b = s.pat(e["p"], v, env)
            if e.get("g"):
                d, _ = s.cond(e["g"], {**env, **b}, z3.And(pc, c))
                c = z3.And(c, d)
            return ("bool", c), pc
        if k == "block":
            return s.block(e, env, pc)
        if k == "return":
            v, pc = s.ev(e["e"], env, pc) if e["e"] else (s.OPAQUE, pc)
            s.ret.append((pc, v))
            return None, z3.BoolVal(False)
        if k == "try":
            v, pc = s.ev(e["e"], env, pc)
            if v[0] not in ("opt", "res"):
                raise Unsupported("?")
            s.ret.append((z3.And(pc, z3.Not(v[1])), (v[0], z3.BoolVal(False), None)))
            return v[2] or s.OPAQUE, z3.And(pc, v[1])
        if k == "if":
            c, b = s.test(e["c"], env, pc)
            v, l1, e1 = s.branch(e["t"], env, pc, c, b)
            w, l2, e2 = s.branch(e["e"], env, pc, z3.Not(c), {}) if e["e"] else (None, z3.And(pc, z3.Not(c)), env)
            for x in list(env):
                if e1[x] is not e2[x]:
                    env[x] = s.join(c, e1[x], e2[x])
            return s.join(c, v, w), z3.Or(l1, l2)
        if k == "match":
            x, pc = s.ev(e["e"], env, pc)
            rest, arms = z3.BoolVal(True), []
            for a in e["a"]:
                c, b = s.pat(a["p"], x, env)
                if a.get("g"):
                    d, _ = s.cond(a["g"], {**env, **b}, z3.And(pc, rest, c))
                    c = z3.And(c, d)
                v, live, e1 = s.branch(a["e"], env, pc, z3.And(rest, c), b)
                if any(e1[y] is not env[y] for y in env):
                    raise Unsupported("change inside a match")
                arms.append((c, v, live))
                rest = z3.And(rest, z3.Not(c))
            v = None
            for c, w, live in reversed(arms):
                v = s.join(c, w, v)
            return v, z3.Or([live for c, w, live in arms])
        if k == "call":
            n = (e["f"].get("p") or "").split("::")[-1]
            if n in ("Ok", "Err", "Some") and len(e["a"]) == 1:
                v = s.OPAQUE
                if n != "Err":
                    v, pc = s.ev(e["a"][0], env, pc)
                return ("opt" if n == "Some" else "res", z3.BoolVal(n != "Err"), v), pc
            if n in s.fns:
                args = []
                for a in e["a"]:
                    v, pc = s.ev(a, env, pc)
                    args.append(v)
                return s.call(s.fns[n], args), pc
            if len(e["a"]) == 1:
                v, pc = s.ev(e["a"][0], env, pc)
                if v[0] == "char":
                    return ("bool", s.ch.member(e["f"], v[1], {})), pc
        if k == "mcall":
            if e["r"].get("p") == "self" and e["m"] in s.fns and s.mentions({"k": "x", "a": e["a"]}, env):
                args = []
                for a in e["a"]:
                    v, pc = s.ev(a, env, pc)
                    args.append(v)
                return s.call(s.fns[e["m"]], args), pc
            return s.method(e, env, pc)
        if k == "index":
            v, pc = s.ev(e["e"], env, pc)
            i = e["i"]
            if v[0] == "str" and i["k"] == "range" and i.get("lo") and i["lo"]["k"] == "int" and not i.get("hi"):
                return ("str", s.cut(v[1], int(i["lo"]["v"]), pc)), pc
        raise Unsupported("string " + k)

    def cut(s, x, m, pc):
        s.side.append(z3.Implies(pc, z3.And([s.n - x >= m] + [s.f(x + i) < 0x80 for i in range(m)])))
        return x + m

    def method(s, e, env, pc):
        m, a = e["m"], e["a"]
        v, pc = s.ev(e["r"], env, pc)
        s.clo = env
        if v[0] == "chars" and m == "as_str":
            return ("str", v[1]), pc
        if m in ("as_str", "clone", "as_ref", "to_string", "to_owned", "as_deref", "into", "into_iter", "by_ref", "iter", "copied", "cloned") and not a:
            return v, pc
        if v[0] == "opt":
            c, x = v[1], v[2]
            if m in ("is_some_and", "is_none_or", "filter", "map", "and_then") and len(a) == 1:
                r = s.closure(a[0], [x], z3.And(pc, c))
                if m == "map":
                    return ("opt", c, r), pc
                if m == "and_then":
                    return ("opt", z3.And(c, r[1]), r[2]), pc
                if m == "filter":
                    return ("opt", z3.And(c, r[1]), x), pc
                return ("bool", z3.And(c, r[1]) if m == "is_some_and" else z3.Or(z3.Not(c), r[1])), pc
            if m in ("map_or", "map_or_else") and len(a) == 2:
                d = s.ev(a[0], env, pc)[0] if m == "map_or" else s.closure(a[0], [], pc)
                return s.join(c, s.closure(a[1], [x], z3.And(pc, c)), d), pc
            if m in ("is_some", "is_none"):
                return ("bool", c if m == "is_some" else z3.Not(c)), pc
            if m in ("ok_or", "ok_or_else"):
                return ("res", c, x), pc
            if m in ("unwrap_or", "unwrap_or_default"):
                return s.join(c, x, s.ev(a[0], env, pc)[0] if a else {"bool": ("bool", z3.BoolVal(False))}.get(x[0], ("lit", ""))), pc
        if v[0] == "res":
            if m in ("is_ok", "is_err"):
                return ("bool", v[1] if m == "is_ok" else z3.Not(v[1])), pc
            if m == "map_err":
                return v, pc
            if m == "ok":
                return ("opt", v[1], v[2]), pc
        if v[0] == "bool" and m in ("then", "then_some") and len(a) == 1:
            return ("opt", v[1], s.closure(a[0], [], pc) if m == "then" else s.ev(a[0], env, pc)[0]), pc
        if v[0] in ("str", "chars"):
            x = v[1]
            lit = None
            if a and a[0]["k"] not in ("closure", "range"):
                try:
                    w = s.ev(a[0], env, pc)[0]
                    lit = w[1] if w and w[0] == "lit" else None
                except Unsupported:
                    pass
            if v[0] == "str":
                if m == "strip_prefix" and lit is not None:
                    return ("opt", s.prefix(x, lit), ("str", x + len(lit))), pc
                if m == "starts_with" and lit is not None:
                    return ("bool", s.prefix(x, lit)), pc
                if m == "is_empty":
                    return ("bool", s.n <= x), pc
                if m == "chars":
                    return ("chars", x), pc
                if m == "len":
                    return ("num", s.bytes(x)), pc
                if m == "get" and a[0]["k"] == "range" and a[0]["lo"] and a[0]["lo"]["k"] == "int" and not a[0].get("hi") and int(a[0]["lo"]["v"]) == 1:
                    w = z3.And(s.n > x, s.f(x) < 0x80)
                    return ("opt", w, ("str", x + 1)), pc
                if m == "contains" and len(a) == 1:
                    return ("bool", s.any(x, a[0], pc)), pc
            else:
                if m == "skip" and a[0]["k"] == "int":
                    return ("chars", z3.If(x + int(a[0]["v"]) <= s.n, x + int(a[0]["v"]), s.n)), pc
                if m == "next" and not a:
                    if e["r"]["k"] == "path":
                        env[e["r"]["p"]] = ("chars", z3.If(x < s.n, x + 1, x))
                    return ("opt", x < s.n, ("char", s.f(x))), pc
                if m == "count":
                    return ("num", z3.If(s.n > x, s.n - x, 0)), pc
                if m == "nth" and a[0]["k"] == "int" and e["r"]["k"] != "path":
                    j = x + int(a[0]["v"])
                    return ("opt", j < s.n, ("char", s.f(j))), pc
                if m == "peekable" and not a:
                    return v, pc
                if m == "peek" and not a:
                    return ("opt", x < s.n, ("char", s.f(x))), pc
                if m in ("all", "any"):
                    r = s.any(x, a[0], pc, m == "all")
                    if e["r"]["k"] == "path":
                        env[e["r"]["p"]] = ("chars", z3.FreshInt("chars"))
                    return ("bool", z3.Not(r) if m == "all" else r), pc
                if m in ("find", "position") and len(a) == 1 and e["r"]["k"] != "path":
                    return ("opt", s.any(x, a[0], pc), None), pc
        raise Unsupported("string method " + m)

    def any(s, x, f, pc, negated=False):
        if f["k"] == "char":
            f = {"k": "closure", "i": [{"k": "pid", "n": "c"}], "e": {"k": "bin", "o": "==", "a": {"k": "path", "p": "c"}, "b": f}}
        i = z3.FreshInt("i")
        p = s.closure(f, [("char", s.f(i))], pc)[1]
        return z3.Exists([i], z3.And(i >= x, i < s.n, z3.Not(p) if negated else p))

    def rejected(s, body):
        """the condition under which the body returns an error because of the string, and the rest which does not look at it"""
        env, pc = {}, z3.BoolVal(True)
        for j, x in enumerate(body["s"]):
            strs = {k: v for k, v in env.items() if v != s.OPAQUE}
            if not any(s.mentions(y, strs) for y in body["s"][j:]):
                break
            if not s.mentions(x, strs):
                if any(y.get("k") in ("return", "try", "break") for y in sub(x)):
                    raise Unsupported("something else may fail before the new name is looked at")
                continue
            if x["k"] == "let":
                b, pc = s.let(x, env, pc)
                env.update(b)
            elif x["k"] == "expr":
                v, pc = s.ev(x["e"], env, pc)
                if v is not None and v != s.OPAQUE:
                    raise Unsupported("the body of rename")
            else:
                raise Unsupported("statement")
        out = []
        for c, v in s.ret:
            if v[0] != "res":
                raise Unsupported("a result that is no error")
            out.append(z3.And(c, z3.Not(v[1])))
        if not out:
            raise Unsupported("the new name is not looked at")
        return z3.Or(out)


def string_consts(repo, rel):
    """the string and character constants of a file"""
    out = {}
    for f, items in load(repo, rel):
        for i in items:
            if i["k"] == "const" and i["e"]["k"] in ("str", "char"):
                out[i["n"]] = ("lit", i["e"]["v"])
    return out


def idchars(repo):
    out, dt = [], 0.0
    v = Verifier(repo)
    ch = Chars(v.fns)
    c = z3.Int("c")
    r, d = equiv("ensures:is_id_char", "parser::is_id_char", lambda: (z3.Implies(scalar(c), ch.fn("is_id_char", c) == spec_idchar(c)), c, ch.unknown))
    out.append(r)
    dt += d
    name = z3.String("name")
    spec_re = z3.Concat(z3.Re(z3.StringVal("$")), z3.Plus(class_re(ch, {"k": "str", "v": IDCHAR}, {})))

    def mk_ident():
        f = v.fns.get("ident_impl")
        if not f:
            raise Unsupported("no function ident_impl")
        return z3.InRe(name, parser_re(ch, f["b"], {})) == z3.InRe(name, spec_re), name, False
    r, d = equiv("ensures:ident_impl", "parser::ident_impl", mk_ident)
    out.append(r)
    dt += d

    def mk_rename():
        items = list(functions(repo, "crates/service/src/features/rename.rs"))
        fs = [i for f, p, i in items if i["n"] == "rename"]
        if len(fs) != 1:
            raise Unsupported("no function rename")
        helpers = {i["n"]: i for f, p, i in items if i["n"] not in ("rename", "rename_impl", "prepare_rename")}

        def hit(e):
            return e.get("k") == "field" and e["n"] == "new_name"
        for f, p, i in items:
            if i["n"] != "rename_impl" and i["n"] != "rename" and any(hit(x) for x in sub(i["b"])):
                raise Unsupported("the new name is looked at again")
        s = StrEv(ch, hit, helpers, string_consts(repo, "crates/service/src/features/rename.rs"))
        g = s.rejected(fs[0]["b"])
        # rejected <=> not a name
        i = z3.Int("i")
        spec = z3.And(s.n >= 2, s.f(0) == ord("$"), z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < s.n), spec_idchar(s.f(i)))))
        return z3.Implies(z3.And(s.axioms), z3.And([g == z3.Not(spec)] + s.side)), s.n, False
    r, d = equiv("ensures:rename(new_name)", "service::rename", mk_rename)
    out.append(r)
    dt += d
    return out, dt


def p01(repo, tier):
    v, out = parser_obligations(repo, ["lossless"])
    t, dt = totality(repo)
    out.append(t)
    return {"obligations": out, "solver_s": dt, "trusted": TRUST + sorted(v.trusted), "probes": probes(repo, 12 if tier == "quick" else 400),
            "assumptions": ["termination is P02's", "the words of the free monoid stand for texts; equality of words is decided by normal forms"],
            "back_ends": {"word equations (deduct/parsev.py)": len(out) - 1, "z3": 1}, "complete": True}


def p02(repo, tier):
    v, out = parser_obligations(repo, ["progress", "recursion"])
    t, dt = totality(repo)
    out.append(t)
    np = no_panics(repo)
    out += np
    return {"obligations": out, "solver_s": dt, "trusted": TRUST + sorted(v.trusted), "probes": [],
            "assumptions": ["the stack holds the nesting of the document (known finding)", "winnow and rowan themselves do not panic when their contracts hold",
                            "allocation succeeds"],
            "back_ends": {"word equations and call graph (deduct/parsev.py)": len(out) - 1 - len(np), "z3": 1, "syntactic": len(np)}, "complete": True}


def p03(repo, tier):
    v, out = parser_obligations(repo, ["loud"])
    return {"obligations": out, "solver_s": 0.0, "trusted": TRUST + sorted(v.trusted),
            "assumptions": ["ranges of errors and acceptance of the whole grammar are covered by the bounded search only"],
            "back_ends": {"path conditions (deduct/parsev.py)": len(out)}, "complete": False}


def p05(repo, tier):
    out, dt = idchars(repo)
    return {"obligations": out, "solver_s": dt, "trusted": ["z3 strings and regular expressions (characters up to U+2FFFF)", "char::is_ascii_*", "winnow take_while, tuple, take"],
            "assumptions": [], "back_ends": {"z3": len(out)}, "complete": True}
