"""Contracts of the parser functions.

Every parser function is checked against its contract, with the callees' contracts (by their signature):

  lossless    on Ok(o): flat(o) = the text consumed, flat = concatenation of the texts of the tokens in o;
              for outputs of type &str: o = the text consumed
  loud        on Ok(o): o holds an ERROR token only if an error was recorded on the path (except `error_token` ..)
  progress    the body of every repetition consumes at least one character
  wellfounded no function calls itself (transitively) without having consumed a character

Texts are words over a free monoid: fresh letters for what a sub-parser consumes, literals otherwise; equality of
words is equality of normal forms. Closures and helper functions are executed symbolically, path by path; `loop`s
are cut with the invariant flat(accumulator) = consumed, iterations over vectors with an inductive step.
"""
import re
from .src import functions, Unsupported, sub

NE = set()      # letters known to be non-empty
_n = [0]


def fresh(ne=False):
    _n[0] += 1
    if ne:
        NE.add(_n[0])
    return (("v", _n[0]),)


def lit(s):
    return (("l", s),) if s else ()


class El:
    def __init__(s, w, raw=False, kind=None):
        s.w, s.raw, s.kind = w, raw, kind


class Vec:
    """segments: values (El, Vec, ...) or Splat"""
    def __init__(s, segs):
        s.segs = tuple(segs)


class Splat:
    """any number of elements, whose flats make up w; item: () -> a fresh element (for vectors of vectors)"""
    def __init__(s, w, item, raw=False):
        s.w, s.item, s.raw = w, item, raw


class Text:
    def __init__(s, w):
        s.w = w


class Abs:
    """output of a generic parser"""
    def __init__(s, w, raw=False):
        s.w, s.raw = w, raw


class Some:
    def __init__(s, v):
        s.v = v


class Ok(Some):
    pass


class Tup:
    def __init__(s, e):
        s.e = tuple(e)


class Enum:
    def __init__(s, p, a):
        s.p, s.a = p, tuple(a)


class Err:
    pass


class Closure:
    def __init__(s, ps, body, env):
        s.ps, s.body, s.env = ps, body, env


class Ref:
    def __init__(s, cell):
        s.cell = cell


class Ckpt:
    def __init__(s, w):
        s.w = w


class Opaque:
    def __init__(s, why="?", feasible=False):
        s.why, s.feasible = why, feasible


class Kind:
    def __init__(s, n):
        s.n = n


class Ctl:
    def __init__(s, k, v=None):
        s.k, s.v = k, v


NONE, UNIT, INPUT = object(), object(), object()


class St:
    __slots__ = ("pos", "store", "sub", "taint", "rec", "adv", "ntv")

    def __init__(s, pos=(), store=None, sub=None, taint=False, rec=False, adv=False, ntv=None):
        s.pos, s.store, s.sub, s.taint, s.rec, s.adv, s.ntv = pos, store or {}, sub or {}, taint, rec, adv, ntv

    def cp(s, **k):
        n = St(s.pos, dict(s.store), dict(s.sub), s.taint, s.rec, s.adv, s.ntv)
        for a, v in k.items():
            setattr(n, a, v)
        return n


class P:
    def __init__(s, k, **kw):
        s.k = k
        s.__dict__.update(kw)


def norm(w, st):
    out = []
    for a in w:
        if a[0] == "v" and a[1] in st.sub:
            for b in norm(st.sub[a[1]], st):
                out.append(b)
        else:
            out.append(a)
    r = []
    for a in out:
        if r and a[0] == "l" and r[-1][0] == "l":
            r[-1] = ("l", r[-1][1] + a[1])
        else:
            r.append(a)
    return tuple(r)


def nonempty(w):
    return any(a[0] == "l" or a[1] in NE for a in w)


def show(w):
    return "".join("‹%s›" % a[1] if a[0] == "v" else repr(a[1]) for a in w) or "ε"


def flat(v):
    if isinstance(v, (El, Text, Abs, Splat)):
        return v.w
    if isinstance(v, Vec):
        return sum((flat(x) for x in v.segs), ())
    if isinstance(v, Some):
        return flat(v.v)
    if v is NONE or v is UNIT:
        return ()
    if isinstance(v, (Tup,)):
        return sum((flat(x) for x in v.e), ())
    if isinstance(v, Enum):
        return sum((flat(x) for x in v.a), ())
    if isinstance(v, str):
        return lit(v)
    raise Unsupported(f"flat of {type(v).__name__}")


def has_raw(v):
    if isinstance(v, (El, Abs, Splat)):
        return v.raw
    if isinstance(v, Vec):
        return any(has_raw(x) for x in v.segs)
    if isinstance(v, Some):
        return has_raw(v.v)
    if isinstance(v, Tup):
        return any(has_raw(x) for x in v.e)
    if isinstance(v, Enum):
        return any(has_raw(x) for x in v.a)
    return False


IDENT_COMBS = {"context", "verify", "by_ref", "complete_err", "into", "output_into", "err_into"}
TOKEN_TEXT = {"multispace0": 0, "multispace1": 1, "till_line_ending": 0, "line_ending": 1, "hex_digit0": 0, "hex_digit1": 1,
              "digit0": 0, "digit1": 1, "alpha1": 1, "alphanumeric1": 1, "space0": 0, "space1": 1, "newline": 1, "rest": 0}


def out_type(o):
    """output type of a signature's return type"""
    o = (o or "").replace(" ", "").replace("'s", "").replace("'_", "").replace("<>", "")
    o = o.replace("&str", "STR")
    if o in ("GreenResult",):
        return "fn", "GreenElement"
    m = re.fullmatch(r"(?:winnow::)?PResult<(.*),SyntaxError>", o)
    if m:
        return "fn", m.group(1)
    m = re.fullmatch(r"impl(?:Winnow)?Parser<Input,(.*),SyntaxError>", o)
    if m:
        return "parser", m.group(1)
    return None, None


class Verifier:
    def __init__(s, repo, rel="crates/parser/src"):
        s.fns, s.dups = {}, set()
        s.where = {}
        for f, path, i in functions(repo, rel):
            if any(p[0] == "impl" for p in path):
                continue
            if i["n"] in s.fns:
                s.dups.add(i["n"])
            s.fns[i["n"]] = i
            s.where[i["n"]] = f
        s.obl = []
        s.cur = None
        s.edges = {}
        s.ne_fn = {n: True for n in s.fns}      # greatest fixpoint
        s.raw_fn = {n: False for n in s.fns}    # least fixpoint
        s.clean_fn = {n: False for n in s.fns}  # least fixpoint of what is known
        s.unsup = {}
        s.assumed = {"functions": []}
        s.trusted = set()
        s.depth = 0

    # ---- contracts of functions, seen from outside
    def sig(s, name):
        f = s.fns.get(name)
        if not f:
            return None, None
        return out_type(f["o"])

    def by_type(s, ty, name, st, arg_outs=None, args_ne=True):
        """outcomes [(st, value)] promised by a contract for output type ty"""
        ne, raw = s.ne_fn.get(name, False) and args_ne, s.raw_fn.get(name, False)

        def one():
            w = fresh(ne)
            return w, st.cp(pos=st.pos + w)
        if ty == "GreenElement":
            w, n = one()
            return [(n, El(w, raw))]
        if ty == "Vec<GreenElement>":
            w, n = one()
            return [(n, Vec([Splat(w, lambda: El(fresh(), raw), raw)]))]
        if ty == "Option<Vec<GreenElement>>":
            w = fresh(True)
            return [(st.cp(pos=st.pos + w), Some(Vec([Splat(w, lambda: El(fresh(), raw), raw)]))), (st.cp(), NONE)]
        if ty == "Option<GreenElement>":
            w = fresh(True)
            return [(st.cp(pos=st.pos + w), Some(El(w, raw))), (st.cp(), NONE)]
        if ty == "STR":
            w, n = one()
            return [(n, Text(w))]
        if ty == "()":
            w, n = one()
            return [(n, UNIT)]
        if ty in ("char", "bool"):
            w, n = one()
            return [(n, Opaque(ty))]
        if ty == "GreenNode":
            w, n = one()
            return [(n, El(w, raw))]
        m = re.fullmatch(r"(Option<)?([A-Z])(>)?", ty)
        if m and arg_outs is not None:
            if m.group(1):
                return [(n, Some(v)) for n, v in arg_outs] + [(st.cp(), NONE)]
            return arg_outs
        raise Unsupported(f"output type {ty} of {name}")

    # ---- running parser values: Ok outcomes
    def run(s, p, st):
        s.depth += 1
        if s.depth > 400:
            s.depth = 0
            raise Unsupported("recursion")
        try:
            return s._run(p, st)
        finally:
            s.depth -= 1

    def _run(s, p, st):
        k = p.k
        if k == "lit":
            return [(st.cp(pos=st.pos + lit(p.v)), Text(lit(p.v)))]
        if k == "text":
            w = fresh(p.ne)
            return [(st.cp(pos=st.pos + w), Text(w) if p.text else Opaque("char"))]
        if k == "empty":
            return [(st.cp(), UNIT)]
        if k == "fail":
            return []
        if k == "tuple":
            outs = [(st, ())]
            for q in p.ps:
                outs = [(n, vs + (v,)) for a, vs in outs for n, v in s.run(q, a)]
                if len(outs) > 5000:
                    raise Unsupported("too many paths")
            return [(n, Tup(vs)) for n, vs in outs]
        if k == "alt":
            return [o for q in p.ps for o in s.run(q, st)]
        if k == "opt":
            return [(n, Some(v)) for n, v in s.run(p.p, st)] + [(st.cp(), NONE)]
        if k == "peek":
            outs = s.run(p.p, st)
            r = []
            for n, v in outs:
                n = n.cp(pos=st.pos)
                # what was seen is not consumed: forget the letters
                r.append((n, s.detach(v)))
            return r
        if k == "not":
            s.run(p.p, st)
            return [(st.cp(), UNIT)]
        if k in ("preceded", "terminated", "delimited"):
            outs = [(st, ())]
            for q in p.ps:
                outs = [(n, vs + (v,)) for a, vs in outs for n, v in s.run(q, a)]
            i = {"preceded": 1, "terminated": 0, "delimited": 1}[k]
            return [(n, vs[i]) for n, vs in outs]
        if k == "take":
            outs = []
            seen = set()
            for n, v in s.run(p.p, st):
                if n.pos[:len(st.pos)] != st.pos:
                    raise Unsupported("take")
                ne = nonempty(n.pos[len(st.pos):])
                if ne in seen:
                    continue
                seen.add(ne)
                w = fresh(ne)
                outs.append((n.cp(pos=st.pos + w), Text(w)))
            return outs
        if k == "void":
            return [(n, UNIT) for n, v in s.run(p.p, st)]
        if k == "map":
            r = []
            for n, v in s.run(p.p, st):
                r += s.call(p.f, [v], n)
            return r
        if k == "value":
            return [(n, p.v) for n, v in s.run(p.p, st)]
        if k == "verify":
            r = []
            for n, v in s.run(p.p, st):
                try:
                    bs = s.call(p.f, [v], n)
                except Unsupported:
                    bs = [(n, True)]        # a filter: some of the outputs pass unchanged
                for n2, b in bs:
                    if b is not False:
                        r.append((n2, v))
            return r
        if k == "verify_map":
            r = []
            for n, v in s.run(p.p, st):
                for n2, b in s.call(p.f, [v], n):
                    if isinstance(b, Some):
                        r.append((n2, b.v))
                    elif b is not NONE:
                        raise Unsupported("verify_map result")
            return r
        if k == "ident":
            return s.run(p.p, st)
        if k == "repeat":
            inner = s.run(p.p, s.inside(st))
            s.oblige("progress", all(nonempty(norm(n.pos, n)) for n, v in inner), st, "a repetition whose body may consume nothing")
            return s.repeat_out(p, st, inner, None)
        if k == "repeat_till":
            inner = s.run(p.p, s.inside(st))
            s.oblige("progress", all(nonempty(norm(n.pos, n)) for n, v in inner) or s.till_progress(p, inner), st,
                     "a repetition whose body may consume nothing")
            outs = s.repeat_out(p, st, inner, None)
            r = []
            for n, v in outs:
                for n2, e in s.run(p.end, n):
                    r.append((n2, Tup([v, e])))
            return r
        if k == "fold":
            inner = s.run(p.p.p, s.inside(st))
            s.oblige("progress", all(nonempty(norm(n.pos, n)) for n, v in inner), st, "a repetition whose body may consume nothing")
            r = []
            for n, acc0 in s.call(p.init, [], st):
                w = fresh(False)
                step = s.fold_step(p.f, acc0, inner, n)
                if step == "append":
                    raw = any(has_raw(v) for _, v in inner)
                    r.append((n.cp(pos=n.pos + w), Vec(acc0.segs + (Splat(w, lambda: El(fresh(), raw), raw),))))
                else:
                    r.append((n.cp(pos=n.pos + w), acc0))
            return r
        if k == "fn":
            return s.call_parser_fn(p, st)
        if k == "absparser":
            w = fresh(p.ne)
            if p.ty == "GreenElement":
                return [(st.cp(pos=st.pos + w), El(w))]
            return [(st.cp(pos=st.pos + w), Abs(w))]
        if k == "closure":
            # a function |input| { .. } used as a parser
            r = []
            for n, v in s.call(p.f, [INPUT], st):
                if isinstance(v, Ok):
                    r.append((n, v.v))
                elif isinstance(v, Err):
                    pass
                else:
                    raise Unsupported("result of a parser closure")
            return r
        if k == "dispatch":
            s.run(p.on, st)
            r = []
            for arm in p.arms:
                env = dict(p.env)
                n = st.cp()
                s.bind_opaque(arm["p"], env, n)
                for n2, q in s.ev(arm["e"], env, n):
                    r += s.run(s.as_parser(q), n2)
            return r
        raise Unsupported("parser " + k)

    def inside(s, st):
        return st.cp(pos=(), adv=st.adv or nonempty(norm(st.pos, st)))

    def infallible(s, p):
        if p.k in ("opt", "empty"):
            return True
        if p.k == "text":
            return bool(getattr(p, "total", False))
        if p.k == "repeat":
            return p.min == 0
        if p.k in ("ident", "take", "void", "map", "value"):
            return s.infallible(p.p)
        if p.k in ("tuple", "preceded", "terminated", "delimited"):
            return all(s.infallible(q) for q in p.ps)
        if p.k == "alt":
            return any(s.infallible(q) for q in p.ps)
        return False

    def clean(s, p, st):
        """on failure the input stands where it stood"""
        k = p.k
        if k in ("lit", "text", "empty", "fail", "opt", "peek"):
            return True
        if k in ("ident", "take", "void", "map", "value", "verify"):
            return s.clean(p.p, st)
        if k in ("tuple", "preceded", "terminated", "delimited"):
            i = 0
            while i < len(p.ps) and p.ps[i].k in ("peek", "not", "empty"):
                i += 1
            return i >= len(p.ps) or s.clean(p.ps[i], st) and all(s.infallible(q) for q in p.ps[i + 1:])
        if k == "alt":
            return s.clean(p.ps[-1], st)
        if k == "fn":
            return s.clean_fn.get(p.name, False)
        if k == "dispatch":
            if p.on.k not in ("peek",):
                return False
            for arm in p.arms:
                env, n = dict(p.env), st.cp()
                s.bind_opaque(arm["p"], env, n)
                for n2, q in s.ev(arm["e"], env, n):
                    if not s.clean(s.as_parser(q), n2):
                        return False
            return True
        return False

    def till_progress(s, p, inner):
        # an iteration that consumes nothing is allowed when the terminator then succeeds or the parse fails:
        # only known for `take_until` followed by alternatives; the letters are non-empty or the end matches
        return p.lookahead

    def detach(s, v):
        if isinstance(v, (Text,)):
            return Text(fresh())
        if isinstance(v, Some) and not isinstance(v, Ok):
            return Some(s.detach(v.v))
        if v is NONE:
            return v
        return Opaque("peek", True)

    def repeat_out(s, p, st, inner, extra):
        outs = []
        w = fresh(p.min >= 1)
        raw = any(has_raw(v) for _, v in inner)
        if p.unit:
            return [(st.cp(pos=st.pos + w), UNIT)]
        vals = [v for _, v in inner]
        for n, v in inner:
            try:
                ok = norm(flat(v), n) == norm(n.pos, n)
            except Unsupported:
                ok = None
            if ok is None:
                # elements which carry no text
                return [(st.cp(pos=st.pos + w), Opaque("repeat"))]
            if not ok:
                s.oblige("lossless", False, n, f"an element of a repetition has text {show(norm(flat(v), n))}, consumed was {show(norm(n.pos, n))}")

        def item():
            v = vals[0] if vals else El(())
            return s.refresh(v, raw)
        rec = any(n.rec for n, _ in inner)
        return [(st.cp(pos=st.pos + w), Vec([Splat(w, item, raw)]))]

    def refresh(s, v, raw):
        if isinstance(v, El):
            return El(fresh(), raw)
        if isinstance(v, Vec):
            return Vec([Splat(fresh(), lambda: El(fresh(), raw), raw)])
        if isinstance(v, Text):
            return Text(fresh())
        raise Unsupported("element of a repetition")

    def fold_step(s, f, acc0, inner, st):
        if not isinstance(acc0, Vec):
            raise Unsupported("fold accumulator")
        kinds = set()
        for n, v in inner:
            x = fresh()
            acc = Vec([Splat(x, lambda: El(fresh()))])
            for n2, r in s.call(f, [acc, v], n.cp(pos=())):
                got = norm(flat(r), n2)
                want = norm(x + n.pos, n2)
                # n.pos is what the body consumed
                if got == want:
                    kinds.add("append")
                else:
                    s.oblige("lossless", False, n2, f"one step of a fold makes {show(got)} of {show(want)}")
                    kinds.add("append")
        return "append"

    def call_parser_fn(s, p, st):
        name = p.name
        mode, ty = s.sig(name)
        if mode is None or name in s.dups:
            raise Unsupported(f"function {name} as a parser")
        if not st.adv and not nonempty(norm(st.pos, st)):
            s.edges.setdefault(s.cur, set()).add(name)
        arg_outs, args_ne = None, True
        for a in p.args:
            if isinstance(a, (P, Closure)) or (isinstance(a, Enum) and a.p == "fnref"):
                q = s.as_parser(a)
                outs = s.run(q, st)
                generic = re.search(r"\bO\b|<O>", ty) is not None or ty == "O"
                if not generic:
                    for n, v in outs:
                        if n.pos[:len(st.pos)] != st.pos:
                            raise Unsupported("argument parser")
                        got, want = norm(flat(v), n), norm(n.pos[len(st.pos):], n)
                        s.oblige("lossless", got == want, n, f"parser given to {name}: text {show(got)}, consumed {show(want)}")
                        s.oblige("loud", not (has_raw(v) and not n.rec), n, f"parser given to {name} hands out an ERROR token silently")
                arg_outs = outs
                args_ne = args_ne and all(nonempty(norm(n.pos[len(st.pos):], n)) for n, v in outs)
        return s.by_type(ty, name, st, arg_outs, args_ne)

    # ---- evaluation
    def as_parser(s, v):
        if isinstance(v, P):
            return v
        if isinstance(v, str):
            return P("lit", v=v)
        if isinstance(v, Text):
            raise Unsupported("text as parser")
        if isinstance(v, Tup):
            return P("tuple", ps=[s.as_parser(x) for x in v.e])
        if isinstance(v, Closure):
            return P("closure", f=v)
        if isinstance(v, Enum) and v.p == "fnref":
            n = v.a[0]
            if n in TOKEN_TEXT:
                s.trusted.add("winnow::" + n)
                return P("text", ne=bool(TOKEN_TEXT[n]), text=True, total=not TOKEN_TEXT[n])
            if n == "any":
                return P("text", ne=True, text=False)
            if n in ("eof", "empty"):
                return P("empty")
            if n == "fail":
                return P("fail")
            return P("fn", name=n, args=[])
        raise Unsupported(f"{type(v).__name__} as a parser")

    def call(s, f, args, st):
        """call of a closure or function value: [(st, value)]"""
        if isinstance(f, Enum) and f.p == "fnref":
            return s.call_fn(f.a[0], args, st)
        if not isinstance(f, Closure):
            raise Unsupported("call of " + type(f).__name__)
        env = dict(f.env)
        outs = [(st.cp(), env)]
        for p, a in zip(f.ps, args):
            outs = [(n, e) for n0, e0 in outs for n, e, ok in s.match(p, a, e0, n0) if ok]
        r = []
        for n, e in outs:
            for n2, v in s.ev(f.body, e, n):
                if isinstance(v, Ctl):
                    if v.k == "ret":
                        v = v.v
                    else:
                        raise Unsupported("control flow out of a closure")
                r.append((n2, v))
        return r

    def call_fn(s, name, args, st):
        last = name.split("::")[-1]
        if name in ("Some",):
            return [(st, Some(args[0]))]
        if name == "Ok":
            return [(st, Ok(args[0]))]
        if name in ("Err",):
            return [(st, Err())]
        if name == "tok" and len(args) == 2:
            return s.mk_tok(args, st)
        if name == "node" and len(args) == 2:
            return [(st, El(flat(args[1]), has_raw(args[1]), args[0]))]
        if name in ("GreenNode::new",):
            return [(st, El(flat(args[1]), has_raw(args[1]), args[0]))]
        if name in ("Vec::with_capacity", "Vec::new", "Vec::default"):
            return [(st, Vec([]))]
        if name.startswith("Vec::<") and last == "new":
            return [(st, Vec([]))]
        if last == "once" and name not in s.fns and len(args) == 1:
            return [(st, Vec([args[0]]))]
        if last in ("identity", "from", "into"):
            return [(st, args[0])]
        if name in s.fns and name not in s.dups:
            f = s.fns[name]
            mode, ty = s.sig(name)
            if mode == "fn" and args and args[-1] is INPUT and len(args) == 1:
                return [(n, Ok(v)) for n, v in s.run(P("fn", name=name, args=[]), st)] + \
                    [(st.cp(pos=st.pos + (() if s.clean_fn.get(name) else fresh())), Err())]
            if mode == "parser":
                return [(st, P("fn", name=name, args=list(args)))]
            return s.inline(f, args, st)
        # tuple struct / enum variant constructor
        if re.fullmatch(r"([A-Z]\w*::)?[A-Z]\w*", name):
            return [(st, Enum(name, args))]
        raise Unsupported("call of " + name)

    def inline(s, f, args, st):
        if s.depth > 60:
            raise Unsupported("recursion in helper " + f["n"])
        s.depth += 10
        try:
            return s.call(Closure([p["p"] for p in f["i"]], f["b"], {}), args, st)
        finally:
            s.depth -= 10

    def mk_tok(s, args, st):
        k, t = args
        raw = isinstance(k, Kind) and k.n == "ERROR"
        if isinstance(t, str):
            t = Text(lit(t))
        if not isinstance(t, Text):
            raise Unsupported("text of a token")
        return [(st, El(t.w, raw, k))]

    def oblige(s, kind, ok, st, msg):
        s.obl.append((s.cur, kind, bool(ok), st.taint, "" if ok else msg))

    # patterns: yields (st, env, matched)
    def match(s, p, v, env, st):
        k = p["k"]
        if k == "pid":
            if isinstance(v, Ref):
                v2 = v
            else:
                v2 = v
            e = dict(env)
            c = len(st.store) + 1
            while c in st.store:
                c += 1
            n = st.cp()
            n.store[c] = v2
            e[p["n"]] = c
            return [(n, e, True)]
        if k in ("pwild", "prest"):
            return [(st, env, True)]
        if k == "ptype":
            return s.match(p["e"], v, env, st)
        if k == "pref":
            return s.match(p["e"], v, env, st)
        if k == "ptuple":
            ps = p["e"]
            if not ps:
                return [(st, env, True)]
            if not isinstance(v, Tup):
                raise Unsupported("tuple pattern")
            rest = [i for i, q in enumerate(ps) if q["k"] == "prest"]
            vs = list(v.e)
            if rest:
                i = rest[0]
                tail = len(ps) - i - 1
                pairs = list(zip(ps[:i], vs[:i])) + (list(zip(ps[i + 1:], vs[-tail:])) if tail else [])
            else:
                if len(ps) != len(vs):
                    raise Unsupported("tuple pattern arity")
                pairs = list(zip(ps, vs))
            outs = [(st, env, True)]
            for q, x in pairs:
                nx = []
                for n, e, ok in outs:
                    if ok:
                        nx += s.match(q, x, e, n)
                    else:
                        nx.append((n, e, ok))
                outs = nx
            return outs
        if k == "pts" or k == "ppath":
            name = p["p"]
            es = p.get("e", [])
            if name == "Some":
                if isinstance(v, Some) and not isinstance(v, Ok):
                    return s.match(es[0], v.v, env, st)
                if v is NONE:
                    return [(st, env, False)]
                if isinstance(v, Opaque):
                    return s.opaque_match(p, env, st, v)
                raise Unsupported("Some pattern")
            if name == "None":
                if v is NONE:
                    return [(st, env, True)]
                if isinstance(v, Some):
                    return [(st, env, False)]
                if isinstance(v, Opaque):
                    return s.opaque_match(p, env, st, v)
                raise Unsupported("None pattern")
            if name == "Ok":
                if isinstance(v, Ok):
                    return s.match(es[0], v.v, env, st)
                if isinstance(v, Err):
                    return [(st, env, False)]
                raise Unsupported("Ok pattern")
            if name == "Err":
                if isinstance(v, Err):
                    q = es[0]
                    if q["k"] in ("pid", "pwild", "prest"):
                        return s.match(q, Opaque("error", True), env, st)
                    # a particular kind of error: may match or not
                    e = dict(env)
                    n = st.cp()
                    s.bind_opaque(q, e, n)
                    return [(n, e, True), (st.cp(), env, False)]
                if isinstance(v, Ok):
                    return [(st, env, False)]
                raise Unsupported("Err pattern")
            if isinstance(v, Enum):
                if v.p.split("::")[-1] != name.split("::")[-1]:
                    return [(st, env, False)]
                return s.match({"k": "ptuple", "e": es}, Tup(v.a), env, st)
            if isinstance(v, Opaque):
                return s.opaque_match(p, env, st, v)
            raise Unsupported("pattern " + name)
        if k == "plit":
            if isinstance(v, Text) and p["v"]["k"] == "str":
                return s.text_eq(v.w, lit(p["v"]["v"]), env, st)
            if isinstance(v, str) and p["v"]["k"] == "str":
                return [(st, env, v == p["v"]["v"])]
            if isinstance(v, bool) and p["v"]["k"] == "bool":
                return [(st, env, v == p["v"]["v"])]
            if isinstance(v, Opaque):
                return s.opaque_match(p, env, st, v)
            raise Unsupported("literal pattern")
        if k == "por":
            outs = []
            pend = [(st, env)]
            for q in p["e"]:
                nx = []
                for n, e in pend:
                    for n2, e2, ok in s.match(q, v, e, n):
                        if ok:
                            outs.append((n2, e2, True))
                        else:
                            nx.append((n2, e))
                pend = nx
            return outs + [(n, e, False) for n, e in pend]
        if k == "prange" and isinstance(v, Opaque):
            return s.opaque_match(p, env, st, v)
        raise Unsupported("pattern " + k)

    def opaque_match(s, p, env, st, v):
        e = dict(env)
        n = st.cp(taint=st.taint or not v.feasible)
        s.bind_opaque(p, e, n)
        return [(n, e, True), (st.cp(taint=st.taint or not v.feasible), env, False)]

    def bind_opaque(s, p, env, st):
        for q in sub(p):
            if q.get("k") == "pid":
                c = len(st.store) + 1
                while c in st.store:
                    c += 1
                st.store[c] = Opaque(q["n"])
                env[q["n"]] = c

    def text_eq(s, a, b, env, st):
        """outcomes of comparing two texts"""
        na, nb = norm(a, st), norm(b, st)
        if na == nb:
            return [(st, env, True)]
        if all(x[0] == "l" for x in na + nb):
            return [(st, env, False)]
        outs = [(st.cp(), env, False)]
        if len(na) == 1 and na[0][0] == "v":
            if na[0] not in nb:
                if na[0][1] in NE and len(nb) == 1 and nb[0][0] == "v" and nb[0][1] not in NE:
                    na, nb = nb, na
                n = st.cp()
                n.sub[na[0][1]] = nb
                outs.append((n, env, True))
                return outs
        if len(nb) == 1 and nb[0][0] == "v" and nb[0] not in na:
            n = st.cp()
            n.sub[nb[0][1]] = na
            outs.append((n, env, True))
            return outs
        outs.append((st.cp(taint=True), env, True))
        return outs

    # expressions: [(st, value)]
    def ev(s, e, env, st):
        k = e["k"]
        m = getattr(s, "ev_" + k, None)
        if m is None:
            raise Unsupported("expression " + k + " at line " + str(e.get("l")))
        return m(e, env, st)

    def seq(s, es, env, st):
        outs = [(st, [])]
        for e in es:
            nx = []
            for n, vs in outs:
                if vs and isinstance(vs[-1], Ctl):
                    nx.append((n, vs))
                    continue
                for n2, v in s.ev(e, env, n):
                    nx.append((n2, vs + [v]))
            outs = nx
        return outs

    def ev_str(s, e, env, st):
        return [(st, e["v"])]
    ev_char = ev_str

    def ev_int(s, e, env, st):
        return [(st, Opaque("int"))]

    def ev_bool(s, e, env, st):
        return [(st, bool(e["v"]))]

    def ev_path(s, e, env, st):
        p = e["p"]
        if p in env:
            c = env[p]
            if c is INPUT:
                return [(st, INPUT)]
            v = st.store[c]
            return [(st, v)]
        if p == "None":
            return [(st, NONE)]
        if p.split("::")[-1].isupper() and re.fullmatch(r"(SyntaxKind::)?[A-Z0-9_]+", p):
            return [(st, Kind(p.split("::")[-1]))]
        return [(st, Enum("fnref", [p if e.get("t", p).startswith(p) else p]))]

    def ev_tuple(s, e, env, st):
        if not e["e"]:
            return [(st, UNIT)]
        return [(n, vs[-1] if isinstance(vs[-1], Ctl) else Tup(vs)) for n, vs in s.seq(e["e"], env, st)]

    def ev_array(s, e, env, st):
        if not e["e"]:
            return [(st, Vec([]))]
        return [(n, vs[-1] if isinstance(vs[-1], Ctl) else Vec(vs)) for n, vs in s.seq(e["e"], env, st)]

    def ev_closure(s, e, env, st):
        return [(st, Closure(e["i"], e["e"], env))]

    def ev_block(s, e, env, st):
        outs = [(st, dict(env), UNIT)]
        for x in e["s"]:
            nx = []
            for n, ev, v in outs:
                if isinstance(v, Ctl):
                    nx.append((n, ev, v))
                    continue
                if x["k"] == "let":
                    if x["e"] is None:
                        c = len(n.store) + 1
                        while c in n.store:
                            c += 1
                        n = n.cp()
                        n.store[c] = Opaque("uninit")
                        ev = dict(ev)
                        ev[x["p"]["n"]] = c
                        nx.append((n, ev, UNIT))
                        continue
                    for n2, w in s.ev(x["e"], ev, n):
                        if isinstance(w, Ctl):
                            nx.append((n2, ev, w))
                            continue
                        for n3, e3, ok in s.match(x["p"], w, ev, n2):
                            if ok:
                                nx.append((n3, e3, UNIT))
                            elif x.get("else"):
                                for n4, w4 in s.ev(x["else"], ev, n3):
                                    nx.append((n4, ev, w4))
                            else:
                                raise Unsupported("refutable let")
                elif x["k"] == "expr":
                    for n2, w in s.ev(x["e"], ev, n):
                        nx.append((n2, ev, w if isinstance(w, Ctl) or not x["semi"] else UNIT))
                elif x["k"] == "item":
                    nx.append((n, ev, v))
                else:
                    raise Unsupported("statement " + x["k"])
            outs = nx
        return [(n, v) for n, _, v in outs]

    def cond(s, c, env, st):
        """[(st, env, bool)]"""
        if c["k"] == "iflet":
            r = []
            for n, v in s.ev(c["e"], env, st):
                if isinstance(v, Ctl):
                    raise Unsupported("control flow in condition")
                r += s.match(c["p"], v, env, n)
            return r
        if c["k"] == "bin" and c["o"] == "&&":
            r = []
            for n, e, b in s.cond(c["a"], env, st):
                r += s.cond(c["b"], e, n) if b else [(n, e, False)]
            return r
        if c["k"] == "bin" and c["o"] == "||":
            r = []
            for n, e, b in s.cond(c["a"], env, st):
                r += [(n, e, True)] if b else s.cond(c["b"], e, n)
            return r
        if c["k"] == "un" and c["o"] == "!":
            return [(n, e, not b) for n, e, b in s.cond(c["e"], env, st)]
        r = []
        for n, v in s.ev(c, env, st):
            if v is True or v is False:
                r.append((n, env, v))
            elif isinstance(v, Opaque):
                t = n.taint or not v.feasible
                r += [(n.cp(taint=t), env, True), (n.cp(taint=t), env, False)]
            else:
                raise Unsupported("condition")
        return r

    def ev_if(s, e, env, st):
        r = []
        for n, ev, b in s.cond(e["c"], env, st):
            if b:
                r += s.ev(e["t"], ev, n)
            elif e["e"]:
                r += s.ev(e["e"], env, n)
            else:
                r.append((n, UNIT))
        return r

    def ev_match(s, e, env, st):
        r = []
        for n, v in s.ev(e["e"], env, st):
            if isinstance(v, Ctl):
                r.append((n, v))
                continue
            pend = [n]
            for a in e["a"]:
                nx = []
                for q in pend:
                    for n2, e2, ok in s.match(a["p"], v, env, q):
                        if not ok:
                            nx.append(n2)
                            continue
                        if a["g"]:
                            for n3, e3, b in s.cond(a["g"], e2, n2):
                                if b:
                                    r += s.ev(a["e"], e3, n3)
                                else:
                                    nx.append(n3)
                        else:
                            r += s.ev(a["e"], e2, n2)
                pend = nx
        return r

    def ev_matches(s, e, env, st):
        r = []
        for n, v in s.ev(e["e"], env, st):
            for n2, e2, ok in s.match(e["p"], v, env, n):
                if ok and e.get("g"):
                    r += [(n3, b) for n3, _, b in s.cond(e["g"], e2, n2)]
                else:
                    r.append((n2, ok))
        return r

    def ev_return(s, e, env, st):
        if e["e"] is None:
            return [(st, Ctl("ret", UNIT))]
        return [(n, v if isinstance(v, Ctl) else Ctl("ret", v)) for n, v in s.ev(e["e"], env, st)]

    def ev_break(s, e, env, st):
        if e["e"] is None:
            return [(st, Ctl("brk", UNIT))]
        return [(n, Ctl("brk", v)) for n, v in s.ev(e["e"], env, st)]

    def ev_continue(s, e, env, st):
        return [(st, Ctl("cont"))]

    def ev_try(s, e, env, st):
        r = []
        for n, v in s.ev(e["e"], env, st):
            if isinstance(v, Ok):
                r.append((n, v.v))
            elif isinstance(v, Err):
                r.append((n, Ctl("ret", v)))
            elif isinstance(v, Some):
                r.append((n, v.v))
            elif v is NONE:
                r.append((n, Ctl("ret", NONE)))
            elif isinstance(v, Ctl):
                r.append((n, v))
            else:
                raise Unsupported("?")
        return r

    def ev_ref(s, e, env, st):
        if e["mut"] and e["e"]["k"] == "path" and e["e"]["p"] in env and env[e["e"]["p"]] is not INPUT:
            c = env[e["e"]["p"]]
            v = st.store[c]
            return [(st, v if isinstance(v, Ref) or v is INPUT else Ref(c))]
        return s.ev(e["e"], env, st)

    def ev_un(s, e, env, st):
        if e["o"] == "*":
            return [(n, n.store[v.cell] if isinstance(v, Ref) else v) for n, v in s.ev(e["e"], env, st)]
        if e["o"] == "!":
            return [(n, b) for n, _, b in s.cond(e, env, st)]
        return [(n, Opaque("arith")) for n, v in s.ev(e["e"], env, st)]

    def ev_bin(s, e, env, st):
        if e["o"] in ("&&", "||"):
            return [(n, b) for n, _, b in s.cond(e, env, st)]
        r = []
        for n, vs in s.seq([e["a"], e["b"]], env, st):
            if isinstance(vs[-1], Ctl):
                r.append((n, vs[-1]))
                continue
            a, b = [Text(lit(x)) if isinstance(x, str) else x for x in vs]
            if e["o"] in ("==", "!=") and isinstance(a, Text) and isinstance(b, Text):
                r += [(n2, ok if e["o"] == "==" else not ok) for n2, _, ok in s.text_eq(a.w, b.w, env, n)]
            elif isinstance(a, Opaque) and a.why == "eof_offset" and isinstance(b, Opaque) and b.why == "eof_offset":
                r.append((n, Opaque("cmp", True)))
            else:
                r.append((n, Opaque("arith")))
        return r

    def ev_assign(s, e, env, st):
        r = []
        for n, v in s.ev(e["b"], env, st):
            t = e["a"]
            if t["k"] == "un" and t["o"] == "*":
                t = t["e"]
            if t["k"] != "path" or t["p"] not in env:
                raise Unsupported("assignment")
            c = env[t["p"]]
            n = n.cp()
            if isinstance(n.store[c], Ref):
                c = n.store[c].cell
            n.store[c] = v
            r.append((n, UNIT))
        return r

    def ev_macro(s, e, env, st):
        if e["n"] == "vec" and e.get("a") is not None:
            if not e["a"]:
                return [(st, Vec([]))]
            return [(n, Vec(vs)) for n, vs in s.seq(e["a"], env, st)]
        if e["n"] in ("debug_assert", "debug_assert_eq", "assert"):
            return [(st, UNIT)]
        raise Unsupported("macro " + e["n"])

    def ev_dispatch(s, e, env, st):
        r = []
        for n, v in s.ev(e["e"], env, st):
            envv = env
            r.append((n, P("dispatch", on=s.as_parser(v), arms=e["a"], env=envv)))
        return r

    def ev_cast(s, e, env, st):
        return s.ev(e["e"], env, st)

    def ev_field(s, e, env, st):
        r = []
        for n, v in s.ev(e["e"], env, st):
            if isinstance(v, Tup) and e["n"].isdigit():
                r.append((n, v.e[int(e["n"])]))
            else:
                r.append((n, Opaque("field")))
        return r

    def ev_range(s, e, env, st):
        lo = e["lo"]
        m = int(lo["v"]) if lo and lo["k"] == "int" else 0
        return [(st, Enum("range", [m]))]

    def ev_loop(s, e, env, st):
        return s.loop(e["b"], env, st)

    def loop(s, body, env, st):
        # invariant: flat(acc) = consumed, for the vectors which the body changes
        probe = s.ev(body, env, st)
        changed = set()
        for n, v in probe:
            for c in st.store:
                if n.store.get(c) is not st.store[c] and isinstance(st.store[c], Vec):
                    changed.add(c)
        inv = [c for c in changed if norm(flat(st.store[c]), st) == norm(st.pos, st)]
        if len(changed) != len(inv) or len(inv) > 1:
            raise Unsupported("loop without a known invariant")
        x = fresh()
        h = st.cp(pos=x)
        for c in inv:
            h.store[c] = Vec([Splat(x, lambda: El(fresh()))])
        h.rec = False
        out = []
        for n, v in s.ev(body, env, h):
            if isinstance(v, Ctl) and v.k == "ret":
                out.append((n, v))
            elif isinstance(v, Ctl) and v.k == "brk":
                out.append((n, v.v))
            else:
                for c in inv:
                    got, want = norm(flat(n.store[c]), n), norm(n.pos, n)
                    s.oblige("lossless", got == want, n, f"loop invariant: accumulated {show(got)}, consumed {show(want)}")
                    s.oblige("loud", not (any(has_raw(y) for y in n.store[c].segs) and not n.rec), n, "loop: an ERROR token without a recorded error")
                w = norm(n.pos, n)
                s.oblige("progress", w[:1] == x and nonempty(w[1:]), n, "an iteration of the loop may consume nothing")
        return out

    def ev_for(s, e, env, st):
        r = []
        for n, v in s.ev(e["e"], env, st):
            r += s.iterate(v, Closure([e["p"]], e["b"], env), n)
        return r

    def iterate(s, v, f, st):
        """for each element of v: f(element); the only effect allowed is appending to a vector"""
        outs = [st]
        if not isinstance(v, Vec):
            if isinstance(v, Some):
                return [(n, UNIT) for n, _ in s.call(f, [v.v], st)]
            if v is NONE:
                return [(st, UNIT)]
            raise Unsupported("iteration")
        for g in v.segs:
            nx = []
            for n in outs:
                if not isinstance(g, Splat):
                    nx += [n2 for n2, _ in s.call(f, [g], n)]
                    continue
                item = g.item()
                runs = s.call(f, [item], n)
                res = None
                for n2, _ in runs:
                    eff = {}
                    for c in n.store:
                        if n2.store.get(c) is not n.store[c]:
                            a, b = n.store[c], n2.store[c]
                            if isinstance(a, Ref):
                                raise Unsupported("iteration effect")
                            if not (isinstance(a, Vec) and isinstance(b, Vec)):
                                raise Unsupported("iteration effect")
                            fa, fb = norm(flat(a), n2), norm(flat(b), n2)
                            if fb[:len(fa)] != fa:
                                s.oblige("lossless", False, n2, f"an iteration turns {show(fa)} into {show(fb)}")
                                fb = fa
                            d = fb[len(fa):]
                            eff[c] = "all" if d == norm(flat(item), n2) else "none" if d == () else "bad"
                    if "bad" in eff.values():
                        raise Unsupported("iteration effect")
                    full = {c for c, x in eff.items() if x == "all"}
                    if res is None:
                        res = full
                    elif res != full:
                        s.oblige("lossless", False, n2, "an iteration drops some elements")
                        res &= full
                    if len(full) > 1:
                        s.oblige("lossless", False, n2, "an iteration adds elements twice")
                n3 = n.cp()
                n3.taint = n3.taint or any(q.taint for q, _ in runs)
                for c in res or ():
                    n3.store[c] = Vec(n3.store[c].segs + (Splat(g.w, lambda: El(fresh(), g.raw), g.raw),))
                nx.append(n3)
            outs = nx
        return [(n, UNIT) for n in outs]

    def ev_call(s, e, env, st):
        f = e["f"]
        if f["k"] != "path":
            r = []
            for n, fv in s.ev(f, env, st):
                for n2, vs in s.seq(e["a"], env, n):
                    r += s.call(fv, vs, n2)
            return r
        name = f["p"]
        if name in env and env[name] is not INPUT:
            r = []
            for n, vs in s.seq(e["a"], env, st):
                if vs and isinstance(vs[-1], Ctl):
                    r.append((n, vs[-1]))
                else:
                    r += s.call(n.store[env[name]], vs, n)
            return r
        last = name.split("::")[-1]
        if name not in s.fns and last in ("alt", "opt", "peek", "not", "preceded", "terminated", "delimited", "repeat", "repeat_till", "one_of",
                                          "none_of", "take_while", "take_till", "take_until", "take_escaped", "take", "cut_err", "backtrack_err", "trace", "any"):
            s.trusted.add("winnow::" + last)
            r = []
            for n, vs in s.seq(e["a"], env, st):
                r.append((n, s.comb(last, vs, f)))
            return r
        r = []
        for n, vs in s.seq(e["a"], env, st):
            if vs and isinstance(vs[-1], Ctl):
                r.append((n, vs[-1]))
            else:
                r += s.call_fn(name, vs, n)
        return r

    def comb(s, c, vs, f):
        ap = s.as_parser
        if c == "alt":
            return P("alt", ps=[ap(x) for x in vs[0].e])
        if c in ("opt", "peek", "not"):
            return P(c, p=ap(vs[0]))
        if c in ("cut_err", "backtrack_err"):
            return P("ident", p=ap(vs[0]))
        if c == "trace":
            return P("ident", p=ap(vs[1]))
        if c in ("preceded", "terminated", "delimited"):
            return P(c, ps=[ap(x) for x in vs])
        mn = vs[0].a[0] if vs and isinstance(vs[0], Enum) and vs[0].p == "range" else 0
        if c == "repeat":
            return P("repeat", p=ap(vs[1]), min=mn, unit="()" in f.get("t", ""))
        if c == "repeat_till":
            # body (take_until(..), X) before an end that take_until stops at
            return P("repeat_till", p=ap(vs[1]), end=ap(vs[2]), min=mn, unit="()" in f.get("t", "").replace(" ", ""), lookahead=s.until_end(vs[1], vs[2]))
        if c in ("one_of", "none_of"):
            return P("text", ne=True, text=False)
        if c in ("take_while", "take_till", "take_until"):
            return P("text", ne=mn >= 1, text=True, total=mn == 0 and c != "take_until")
        if c in ("take_escaped", "take"):
            return P("text", ne=False, text=True)
        raise Unsupported(c)

    def until_end(s, body, end):
        """repeat_till(.., (take_until(0.., (A, B)), dispatch{peek(opt(A)); Some => nonempty, None => empty}), B):
        an iteration that consumes nothing stands before B, so that the repetition ends there"""
        return isinstance(end, str) and isinstance(body, Tup) and len(body.e) == 2 and isinstance(body.e[0], P) and body.e[0].k == "text" \
            and isinstance(body.e[1], P) and body.e[1].k == "dispatch"

    def place(s, e, env, st):
        """cell of a mutable place"""
        if e["k"] == "path" and e["p"] in env and env[e["p"]] is not INPUT:
            c = env[e["p"]]
            v = st.store[c]
            return v.cell if isinstance(v, Ref) else c
        if e["k"] == "ref":
            return s.place(e["e"], env, st)
        raise Unsupported("place")

    def ev_mcall(s, e, env, st):
        m, r_, a = e["m"], e["r"], e["a"]
        # mutation of vectors
        if m in ("push", "append", "extend", "insert", "truncate", "pop", "clear", "remove", "reverse", "drain", "retain", "swap", "sort") and r_["k"] == "path":
            c = s.place(r_, env, st)
            if isinstance(st.store[c], Vec):
                if m == "drain" and len(a) == 1 and a[0].get("k") == "range" and not a[0].get("lo") and not a[0].get("hi"):
                    n = st.cp()
                    n.store[c] = Vec([])
                    return [(n, st.store[c])]
                front = m == "insert" and len(a) == 2 and a[0].get("k") == "int" and str(a[0].get("v")) == "0"
                if m not in ("push", "append", "extend") and not front:
                    raise Unsupported("Vec::" + m)
                out = []
                for n, vs in s.seq(a[-1:], env, st):
                    v = vs[0]
                    n = n.cp()
                    if isinstance(v, Ref):
                        src = v.cell
                        v = n.store[src]
                        if m == "append":
                            n.store[src] = Vec([])
                    add = (v,) if m == "push" or front else v.segs if isinstance(v, Vec) else (v.v,) if isinstance(v, Some) else () if v is NONE else None
                    if add is None:
                        raise Unsupported("Vec::" + m)
                    if m == "extend" and isinstance(v, Some) and isinstance(v.v, Vec):
                        raise Unsupported("extend with vectors")
                    n.store[c] = Vec(add + n.store[c].segs if front else n.store[c].segs + add)
                    out.append((n, UNIT))
                return out
        out = []
        for n, rv in s.ev(r_, env, st):
            if isinstance(rv, Ctl):
                out.append((n, rv))
                continue
            if isinstance(rv, Ref):
                rv = n.store[rv.cell]
            for n2, vs in s.seq(a, env, n):
                if vs and isinstance(vs[-1], Ctl):
                    out.append((n2, vs[-1]))
                    continue
                out += s.method(rv, m, vs, n2, e, env)
        return out

    def method(s, v, m, a, st, e, env):
        if v is INPUT:
            if m == "checkpoint":
                return [(st, Ckpt(st.pos))]
            if m == "reset":
                if not isinstance(a[0], Ckpt):
                    raise Unsupported("reset")
                return [(st.cp(pos=a[0].w), UNIT)]
            if m == "eof_offset":
                return [(st, Opaque("eof_offset", True))]
            if m == "record_err":
                s.trusted.add("winnow::Recoverable::record_err")
                return [(st.cp(rec=True), Ok(UNIT)), (st.cp(), Err())]
            return [(st, Opaque("input." + m))]
        if m == "parse_next":
            p = s.as_parser(v)
            return [(n, Ok(o)) for n, o in s.run(p, st)] + [(st.cp(pos=st.pos + (() if s.clean(p, st) else fresh())), Err())]
        # parser adaptors
        if isinstance(v, (P, Closure)) or isinstance(v, str) and m in ("map", "void", "value", "context", "take", "verify") or \
                (isinstance(v, Tup) and m not in ("clone",)) or (isinstance(v, Enum) and v.p == "fnref"):
            p = s.as_parser(v)
            s.trusted.add("winnow::Parser::" + m)
            if m in ("context", "by_ref", "complete_err", "err_into"):
                return [(st, P("ident", p=p))]
            if m in ("take", "recognize"):
                return [(st, P("take", p=p))]
            if m == "void":
                return [(st, P("void", p=p))]
            if m == "value":
                return [(st, P("value", p=p, v=a[0]))]
            if m == "map":
                return [(st, P("map", p=p, f=a[0]))]
            if m == "verify":
                return [(st, P("verify", p=p, f=a[0]))]
            if m == "verify_map":
                return [(st, P("verify_map", p=p, f=a[0]))]
            if m == "fold" and p.k == "repeat":
                return [(st, P("fold", p=p, init=a[0], f=a[1]))]
            raise Unsupported("parser adaptor " + m)
        if isinstance(v, Opaque):
            return [(st, Opaque(v.why, v.feasible))]
        if isinstance(v, Ok):
            if m == "map":
                return [(n, Ok(o)) for n, o in s.call(a[0], [v.v], st)]
            if m == "and_then":
                return s.call(a[0], [v.v], st)
            if m == "ok":
                return [(st, Some(v.v))]
            if m in ("is_ok", "is_err"):
                return [(st, m == "is_ok")]
        if isinstance(v, Err):
            if m in ("map", "map_err", "and_then"):
                return [(st, v)]
            if m == "ok":
                return [(st, NONE)]
            if m in ("is_ok", "is_err"):
                return [(st, m == "is_err")]
        if isinstance(v, Some) and not isinstance(v, Ok):
            if m == "is_some":
                return [(st, True)]
            if m == "is_none":
                return [(st, False)]
            if m in ("unwrap_or_default", "unwrap", "unwrap_or", "expect", "unwrap_or_else"):
                return [(st, v.v)]
            if m == "map":
                return [(n, Some(o)) for n, o in s.call(a[0], [v.v], st)]
            if m in ("into_iter", "iter", "as_ref", "as_mut", "take", "cloned"):
                return [(st, v if m != "into_iter" else Vec([v.v]))]
            if m == "flatten":
                return [(st, v.v)]
            if m in ("into_iter",):
                return [(st, Vec([v.v]))]
        if v is NONE:
            if m == "is_some":
                return [(st, False)]
            if m == "is_none":
                return [(st, True)]
            if m == "unwrap_or_default":
                return [(st, Vec([]))]
            if m == "unwrap_or":
                return [(st, a[0])]
            if m in ("into_iter", "iter"):
                return [(st, Vec([]))]
            if m in ("map", "flatten", "as_ref", "as_mut", "take"):
                return [(st, v)]
        if isinstance(v, bool):
            if m == "then":
                return [(n, Some(o)) for n, o in s.call(a[0], [], st)] if v else [(st, NONE)]
            if m == "then_some":
                return [(st, Some(a[0]) if v else NONE)]
        if isinstance(v, (Text, str)):
            if m in ("to_string", "as_ref", "to_owned", "into", "as_str", "clone"):
                return [(st, v)]
            return [(st, Opaque("str." + m))]
        if isinstance(v, Vec):
            if m in ("into_iter", "collect", "to_vec", "iter", "clone", "by_ref", "peekable", "fuse", "into", "into_boxed_slice"):
                return [(st, v)]
            if m in ("len", "is_empty", "capacity"):
                return [(st, Opaque("len"))]
            if m in ("shrink_to_fit", "reserve", "reserve_exact", "shrink_to"):
                return [(st, UNIT)]
            if m == "for_each":
                return s.iterate(v, a[0], st)
            if m in ("flatten", "concat"):
                segs = []
                for g in v.segs:
                    if isinstance(g, Splat):
                        segs.append(Splat(g.w, lambda: El(fresh(), g.raw), g.raw))
                    elif isinstance(g, Vec):
                        segs += g.segs
                    elif isinstance(g, Some):
                        segs += g.v.segs if isinstance(g.v, Vec) else [g.v]
                    elif g is NONE:
                        pass
                    else:
                        raise Unsupported("flatten")
                return [(st, Vec(segs))]
            if m in ("flat_map", "map"):
                # one representative element per segment
                segs = []
                n = st
                for g in v.segs:
                    item = g.item() if isinstance(g, Splat) else g
                    rs = s.call(a[0], [item], n)
                    if len(rs) != 1:
                        raise Unsupported(m)
                    n, o = rs[0]
                    if isinstance(g, Splat):
                        if norm(flat(o), n) != norm(flat(item), n):
                            s.oblige("lossless", False, n, f"{m} turns {show(norm(flat(item), n))} into {show(norm(flat(o), n))}")
                        segs.append(Splat(g.w, (lambda: El(fresh(), g.raw)) if m == "flat_map" else g.item, g.raw))
                    else:
                        segs += o.segs if m == "flat_map" and isinstance(o, Vec) else [o]
                return [(n, Vec(segs))]
            if m == "chain":
                b = a[0]
                bs = b.segs if isinstance(b, Vec) else (b.v,) if isinstance(b, Some) else () if b is NONE else None
                if bs is None:
                    raise Unsupported("chain")
                return [(st, Vec(v.segs + bs))]
            if m == "fold" and len(a) == 2 and isinstance(a[0], Vec):
                acc, n = a[0], st
                for g in v.segs:
                    item = g.item() if isinstance(g, Splat) else g
                    x = fresh()
                    rs = s.call(a[1], [Vec([Splat(x, lambda: El(fresh()))]), item], n)
                    for n2, o in rs:
                        got, want = norm(flat(o), n2), norm(x + flat(item), n2)
                        s.oblige("lossless", got == want, n2, f"a fold step makes {show(got)} of {show(want)}")
                    acc = Vec(acc.segs + ((Splat(g.w, lambda: El(fresh(), g.raw), g.raw),) if isinstance(g, Splat) else (g,)))
                return [(n, acc)]
            if m in ("skip", "take", "filter", "rev", "skip_while", "take_while", "filter_map", "step_by", "last", "next", "first"):
                raise Unsupported("iterator " + m)
        if m in ("clone", "into", "to_owned", "by_ref", "as_mut"):
            return [(st, v)]
        raise Unsupported(f"method {m} of {type(v).__name__} at line {e.get('l')}")

    # ---- a function against its contract
    def verify(s, name):
        f = s.fns[name]
        mode, ty = s.sig(name)
        if mode is None:
            return None
        s.cur = name
        env, st = {}, St()
        for p in f["i"]:
            t = p["ty"].replace(" ", "")
            n = p["p"].get("n")
            if t.startswith("&mutInput"):
                env[n] = INPUT
                continue
            w = re.sub(r"^\s*where\b", ",", f.get("w") or "") + "," + re.sub(r"^\s*<", ",", f.get("g") or "")
            w = w.replace(" ", "").replace("'s", "").replace("'_", "").replace("<>", "")
            mm = re.search(r",%s:(?:\w+::)*(?:Winnow)?Parser<Input,(\w+),SyntaxError>" % re.escape(t), w)
            c = len(st.store) + 1
            if mm or t.startswith("implParser") or t.startswith("implWinnowParser"):
                ty2 = mm.group(1) if mm else re.search(r"Parser<Input(?:<.*?>)?,(\w+)", t).group(1)
                st.store[c] = P("absparser", ty=ty2, ne=True)
            elif t in ("&'staticstr", "&str", "&'sstr"):
                st.store[c] = Text(fresh())
            elif t == "bool":
                st.store[c] = Opaque("bool", True)
            else:
                st.store[c] = Opaque(n or "?", True)
            env[n] = c
        ne, raw, cl = True, False, True
        for n, v in s.ev(f["b"], env, st):
            if isinstance(v, Ctl):
                v = v.v
            if mode == "parser":
                p = s.as_parser(v)
                outs = s.run(p, n)
                cl = cl and s.clean(p, n)
            else:
                cl = cl and (isinstance(v, Ok) or norm(n.pos, n) == ())
                outs = [(n, v.v)] if isinstance(v, Ok) else []
                if not isinstance(v, (Ok, Err)):
                    raise Unsupported("result")
            for n2, o in outs:
                pos = norm(n2.pos, n2)
                ne = ne and (nonempty(pos) or o is NONE and ty.startswith("Option<"))
                if ty in ("()", "char", "bool"):
                    continue
                got = norm(flat(o), n2)
                s.oblige("lossless", got == pos, n2, f"output has text {show(got)}, consumed {show(pos)}")
                if has_raw(o) and not n2.rec:
                    raw = True
        if ty.startswith("Option<"):
            ne = False
        return ne, raw, cl

    def contract(s, name):
        """what callers may assume of a function beyond reach (its own obligations are undecided)"""
        a = s.assumed
        if name in a["functions"]:
            return name in a["nonempty"], name in a["raw"], name in a["clean"]
        return True, False, True

    def fixpoint(s):
        for rnd in range(30):
            s.obl, s.edges, s.unsup = [], {}, {}
            changed = False
            for name in sorted(s.fns):
                if name in s.dups or s.sig(name)[0] is None:
                    continue
                before = len(s.obl)
                s.depth = 0
                try:
                    r = s.verify(name)
                except Unsupported as x:
                    s.unsup[name] = str(x)
                    del s.obl[before:]
                    r = s.contract(name)
                except (KeyError, AttributeError, TypeError, IndexError, RecursionError) as x:
                    s.unsup[name] = f"{type(x).__name__}: {x}"
                    del s.obl[before:]
                    r = s.contract(name)
                ne, raw, cl = r
                if cl and not s.clean_fn[name]:
                    s.clean_fn[name] = changed = True
                if s.ne_fn[name] and not ne:
                    s.ne_fn[name] = False
                    changed = True
                if raw and not s.raw_fn[name]:
                    s.raw_fn[name] = True
                    changed = True
            if not changed:
                return
        raise Unsupported("fixpoint")


def cycles(edges):
    """functions on a cycle"""
    bad = set()
    for a in edges:
        seen, todo = set(), list(edges.get(a, ()))
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += edges.get(x, ())
        if a in seen:
            bad.add(a)
    return bad
