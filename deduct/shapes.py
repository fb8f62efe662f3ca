"""Children of every kind of node in a tree without syntax errors, derived from the parser functions.

The parser functions are executed symbolically (parsev.py), path by path. A path on which an error is recorded does not
belong to an error-free tree and is left out. Every element handed on is a letter; RX says what a letter stands for:

  ("tok", kind, text or None)   ("node", kind, n) made in the n-th way   ("fn", name) one element made by the function   ("seq", [..])
  ("star", rx)  any number of repetitions          ("alt", {..})      ("triv",) any number of white space and comments
"""
from .src import Unsupported
from . import parsev as pv
from .parsev import Verifier, Vec, Splat, El, Text, Some, Ok, NONE, UNIT, P, St, Ctl, Kind, Tup, Closure, Enum, Err, fresh, norm, flat, nonempty, Opaque

TRIVIA = {"WHITESPACE", "LINE_COMMENT", "BLOCK_COMMENT"}


def alt(xs):
    out = []
    for x in xs:
        for y in (x[1] if x[0] == "alt" else (x,)):
            if y not in out:
                out.append(y)
    return out[0] if len(out) == 1 else ("alt", tuple(out))


def seq(xs):
    out = []
    for x in xs:
        out += x[1] if x[0] == "seq" else (x,)
    return out[0] if len(out) == 1 else ("seq", tuple(out))


class Shapes(Verifier):
    def __init__(s, repo):
        super().__init__(repo)
        s.RX = {}
        s.defs = {}      # node kind -> [sequence]
        s.langs = {}
        s.fixes = {}     # kind of trivia -> {(text it starts with, text it ends with)}
        s.ends = {}      # letter of a text -> {(text it starts with, text it ends with)}
        s.ends_of = {}
        s.elem = {}      # function -> {rx of the element it makes}
        s.vecs = {}      # function -> {rx of the elements it makes}
        s.pre = {"type_use", "block_type"}     # called where no trivia stands, obliged at every call
        s.pre_ok = True
        s.errs = {}

    def oblige(s, kind, ok, st, msg):
        pass

    def letter(s, rx):
        w = fresh(True)
        s.RX[w[0][1]] = rx
        return w

    def rx(s, v, st):
        out = []
        for a in norm(flat(v), st):
            if a[0] != "v" or a[1] not in s.RX:
                raise Unsupported("an element of unknown shape")
            out.append(s.RX[a[1]])
        return seq(out)

    # ---- tokens and nodes
    def mk_tok(s, args, st):
        k, t = args
        if not isinstance(k, Kind):
            raise Unsupported("token kind")
        if isinstance(t, str):
            text = t
        else:
            w = norm(t.w, st)
            text = "".join(a[1] for a in w) if all(a[0] == "l" for a in w) else None
        if k.n in TRIVIA and not isinstance(t, str):
            s.fixes.setdefault(k.n, set()).update(s.text_ends(norm(t.w, st)))
        if k.n in TRIVIA:
            return [(st, El(s.letter(("triv",)), False, k))]
        return [(st, El(s.letter(("tok", k.n, text)), k.n == "ERROR", k))]

    def text_ends(s, w):
        """{(text it starts with, text it ends with)} of the letters w"""
        one = lambda a: {(a[1], a[1])} if a[0] == "l" else s.ends.get(a[1], {("", "")})
        return {(a, b) for a, _ in one(w[0]) for _, b in one(w[-1])} if w else {("", "")}

    def fn_ends(s, name):
        """of the text the function answers"""
        if name not in s.ends_of:
            s.ends_of[name] = {("", "")}       # what a recursive call may rely on
            f, got = s.fns[name], set()
            for n, v in s.call(Closure([q["p"] for q in f["i"]], f["b"], {}), [INPUT_], St()):
                if isinstance(v, Ok):
                    got |= s.text_ends(norm(v.v.w, n)) if isinstance(v.v, Text) else {("", "")}
            s.ends_of[name] = got or {("", "")}
        return s.ends_of[name]

    def call_fn(s, name, args, st):
        if name in ("node", "GreenNode::new") and len(args) == 2:
            k = args[0]
            if not isinstance(k, Kind):
                raise Unsupported("node kind")
            if st.rec:
                return []
            d, r = s.defs.setdefault(k.n, []), s.rx(args[1], st)
            if r not in d:
                d.append(r)
            return [(st, El(s.letter(("node", k.n, d.index(r))), False, k))]
        return super().call_fn(name, args, st)

    # ---- functions
    def call_parser_fn(s, p, st):
        name = p.name
        mode, ty = s.sig(name)
        if mode is None or name in s.dups:
            raise Unsupported(f"function {name} as a parser")
        f = s.fns[name]
        here = norm(st.pos, st)
        if name == "trivias":
            if st.ntv == here:
                return [(st.cp(), Vec([]))]
            w = s.letter(("triv",))
            n = st.cp(pos=st.pos + w)
            n.ntv = norm(n.pos, n)
            return [(n, Vec([Splat(w, None)]))]
        if name in s.pre and st.ntv != here:
            s.pre_ok = False
            s.errs.setdefault("pre", f"{name} is called by {s.cur} where trivia may stand")
        if mode == "fn" and not p.args and ty in ("GreenElement", "Vec<GreenElement>"):
            w = s.letter(("fn", name))
            v = El(w) if ty == "GreenElement" else Vec([Splat(w, None)])
            return [(st.cp(pos=st.pos + w), v)]
        if mode == "fn" and not p.args and ty in ("STR", "()", "char", "bool"):
            outs = s.by_type(ty, name, st)
            if ty == "STR":
                for n, v in outs:
                    s.ends[v.w[0][1]] = s.fn_ends(name)
            return outs
        # generic combinators and the like: the body itself
        if s.depth > 200:
            raise Unsupported("recursion in helper " + name)
        out = []
        ps = [q["p"] for q in f["i"]]
        args = list(p.args) + ([INPUT_] if mode == "fn" else [])
        for n, v in s.call(Closure(ps, f["b"], {}), args, st):
            if mode == "parser":
                out += s.run(s.as_parser(v), n)
            elif isinstance(v, Ok):
                out.append((n, v.v))
        return [(n, v) for n, v in out if not n.rec]

    def call(s, f, args, st):
        return [(n, v) for n, v in super().call(f, args, st) if not n.rec]

    def loop(s, body, env, st):
        out = []
        for n, v in s.ev(body, env, st):
            if isinstance(v, Ctl) and v.k == "ret":
                out.append((n, v))
            elif isinstance(v, Ctl) and v.k == "brk":
                out.append((n, v.v))
            elif not n.rec:
                raise Unsupported("a loop that goes on without an error")
        return out

    # ---- repetitions
    def inside(s, st):
        n = super().inside(st)
        n.ntv = None
        return n

    def _run(s, p, st):
        if p.k == "take":
            got = {}
            for n, v in s.run(p.p, st):
                if n.pos[:len(st.pos)] != st.pos:
                    raise Unsupported("take")
                w = norm(n.pos[len(st.pos):], n)
                got.setdefault(nonempty(w), (n, set()))[1].update(s.text_ends(w))
            outs = []
            for ne, (n, ends) in got.items():
                w = fresh(ne)
                s.ends[w[0][1]] = ends
                outs.append((n.cp(pos=st.pos + w), Text(w)))
            return outs
        if p.k in ("repeat", "repeat_till") and not p.unit:
            first = st.cp(pos=())
            first.ntv = () if st.ntv == norm(st.pos, st) else None
            a = s.run(p.p, first)
            b = s.run(p.p, s.inside(st))
            try:
                ra, rb = alt([s.rx(v, n) for n, v in a]), alt([s.rx(v, n) for n, v in b])
            except Unsupported:
                w = fresh(p.min >= 1)
                outs = [(st.cp(pos=st.pos + w), Opaque("repeat"))]
            else:
                many = ("star", rb) if ra == rb and p.min == 0 else seq([ra, ("star", rb)])
                if p.min == 0 and ra != rb:
                    many = ("alt", (("seq", ()), many))
                w = s.letter(many)
                kind = a[0][1]

                def item():
                    x = s.letter(rb)
                    return Vec([Splat(x, None)]) if isinstance(kind, Vec) else El(x)
                outs = [(st.cp(pos=st.pos + w), Vec([Splat(w, item)]))]
                if all(x == ("triv",) for x in (ra, rb)):
                    n = outs[0][0]
                    s.RX[w[0][1]] = ("triv",)
                    n.ntv = norm(n.pos, n)
            if p.k == "repeat":
                return outs
            return [(n2, Tup([v, e])) for n, v in outs for n2, e in s.run(p.end, n)]
        if p.k == "dispatch":
            s.run(p.on, st)
            r = []
            # what is looked at stands right here, not behind trivia
            here = p.on.k == "peek" and p.on.p.k in ("any", "opt", "lit")
            paren = p.on.k == "peek" and starts_paren(p.on.p)
            for arm in p.arms:
                env, n = dict(p.env), st.cp()
                s.bind_opaque(arm["p"], env, n)
                q = arm["p"]
                if paren or here and (q["k"] == "plit" and str(q.get("v", q.get("e"))).find("(") >= 0):
                    n.ntv = norm(n.pos, n)
                for n2, v in s.ev(arm["e"], env, n):
                    r += s.run(s.as_parser(v), n2)
            return r
        return super()._run(p, st)

    # ---- all functions
    def go(s):
        for name in sorted(s.fns):
            f = s.fns[name]
            mode, ty = s.sig(name)
            if name in s.dups or mode != "fn" or ty not in ("GreenElement", "Vec<GreenElement>", "GreenNode"):
                continue
            s.cur, s.depth = name, 0
            st = St(ntv=() if name in s.pre else None)
            try:
                outs = s.call(Closure([q["p"] for q in f["i"]], f["b"], {}), [INPUT_], st)
                for n, v in outs:
                    if isinstance(v, Ok) and not n.rec:
                        (s.elem if ty != "Vec<GreenElement>" else s.vecs).setdefault(name, set()).add(s.rx(v.v, n))
            except (Unsupported, KeyError, AttributeError, TypeError, IndexError, RecursionError) as x:
                s.errs[name] = f"{type(x).__name__}: {x}" if not isinstance(x, Unsupported) else str(x)
        return s

    def letters(s, name, seen=()):
        """concrete letters of the element a function makes"""
        if name in seen:
            return set()
        if name in s.errs or name not in s.elem:
            raise Unsupported(f"the elements made by {name}: {s.errs.get(name)}")
        out = set()
        for r in s.elem[name]:
            for x in (r[1] if r[0] == "alt" else (r,)):
                if x[0] == "fn":
                    out |= s.letters(x[1], seen + (name,))
                elif x[0] in ("tok", "node"):
                    out.add(x)
                else:
                    raise Unsupported(f"the elements made by {name}")
        return out

    def words(s, rx):
        """normal forms: sequences of ("t",) trivia may stand here, ("one", letters), ("many", letters, trivia may stand in front of each)"""
        k = rx[0]
        if k == "triv":
            return [(("t",),)]
        if k in ("tok", "node"):
            return [(("one", frozenset([rx])),)]
        if k == "fn":
            if rx[1] in s.vecs:
                return s.words(alt(s.vecs[rx[1]]))
            return [(("one", frozenset(s.letters(rx[1]))),)]
        if k == "alt":
            # single letters stay one block
            single, out = set(), []
            for x in rx[1]:
                for w in s.words(x):
                    if len(w) == 1 and w[0][0] == "one":
                        single |= w[0][1]
                    elif w not in out:
                        out.append(w)
            if single:
                out.append((("one", frozenset(single)),))
            # the same with trivia in front
            tl = [w for w in out if len(w) == 2 and w[0] == ("t",) and w[1][0] == "one"]
            if len(tl) > 1:
                out = [w for w in out if w not in tl] + [(("t",), ("one", frozenset().union(*(w[1][1] for w in tl))))]
            return out
        if k == "seq":
            outs = [()]
            for x in rx[1]:
                outs = [a + b for a in outs for b in s.words(x)]
                if len(outs) > 20000:
                    raise Unsupported("too many shapes")
            return outs
        if k == "star":
            ws = s.words(rx[1])
            ls, tr = set(), None
            for w in ws:
                t = False
                while w and w[0] == ("t",):
                    t, w = True, w[1:]
                if len(w) != 1 or w[0][0] != "one" or tr is not None and tr != t:
                    raise Unsupported("a repetition of several elements")
                tr = t
                ls |= w[0][1]
            return [(("many", frozenset(ls), tr),)] if ls else [()]
        raise Unsupported(k)

    def language(s, kind, which=None):
        """all normal forms of the children of a kind of node (made in one way)"""
        if (kind, which) not in s.langs:
            out = []
            for n, rx in enumerate(s.defs[kind]):
                for w in s.words(rx) if which in (None, n) else ():
                    if w not in out:
                        out.append(w)
            s.langs[kind, which] = out
        return s.langs[kind, which]


INPUT_ = pv.INPUT


def starts_paren(p):
    while p.k in ("ident", "preceded", "terminated", "delimited", "tuple"):
        p = p.p if p.k == "ident" else p.ps[0]
    return p.k == "lit" and p.v.startswith("(")
