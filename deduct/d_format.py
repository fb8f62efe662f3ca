"""P13, P15: the functions of crates/formatter under contract.

Contract of `DocGen::doc` of a node: for every sequence of children that an error-free tree can have (shapes.py derives
these from the parser functions) the printed document consists of all the children in order, every comment of a gap
stands in that gap, literal text equals the text of the token it stands for, white space stands between any two tokens
that need it, and nothing is printed beyond that.  Callers are checked against the contract: `child.doc(ctx)` prints the
child.  A repetition is checked with 0, 1 and 3 elements; after the second and the third element of it the state has to be
the same (a fixpoint), so the case of 3 elements stands for all the longer ones.
"""
import re
from .src import load, walk, Unsupported
from .shapes import Shapes
from .d_syntax import kinds_and_types, Node
from .conc import Enum as CEnum

TRIVIA = ("WHITESPACE", "LINE_COMMENT", "BLOCK_COMMENT")
WS = {"space", "hard_line", "soft_line", "empty_line", "line_or_space"}


class Split(Exception):
    def __init__(s, i, part):
        s.i, s.part = i, part


class Loop(Exception):
    def __init__(s, kind, v=None):
        s.kind, s.v = kind, v


class Bad(Exception):
    """the code breaks its contract on this case"""


class El:
    """the i-th child; i is None for the node itself"""

    def __init__(s, i, ty=None):
        s.i, s.ty = i, ty

    def __eq__(s, o):
        return isinstance(o, El) and (s.i, s.ty) == (o.i, o.ty)

    def __hash__(s):
        return hash(s.i)


class Gap:
    """the white space and comments in front of the i-th child"""

    def __init__(s, i, kind=None):
        s.i, s.kind = i, kind

    def __eq__(s, o):
        return isinstance(o, Gap) and (s.i, s.kind) == (o.i, o.kind)

    __hash__ = None


class Some:
    def __init__(s, v):
        s.v = v

    def __eq__(s, o):
        return isinstance(o, Some) and s.v == o.v

    __hash__ = None


class MaybeSome:
    """an optional part of a child: unknown here"""

    def __init__(s, key):
        s.key = key


class Cond:
    def __init__(s, op, *a):
        s.op, s.a = op, a


class Doc:
    def __init__(s, atoms):
        s.atoms = tuple(atoms)

    def __eq__(s, o):
        return isinstance(o, Doc) and s.atoms == o.atoms

    __hash__ = None


class V:
    """a vector of documents"""

    def __init__(s, items=()):
        s.items = list(items)


class It:
    def __init__(s, items):
        s.items = list(items)


class Text:
    """the text of a child"""

    def __init__(s, el):
        s.el = el


class Fn:
    def __init__(s, pats, body, env):
        s.pats, s.body, s.env = pats, body, env


class Env:
    def __init__(s, up=None):
        s.up, s.v = up, {}

    def find(s, n):
        e = s
        while e is not None:
            if n in e.v:
                return e
            e = e.up
        raise Unsupported("name " + n)


def name(ls):
    return "|".join(sorted({(x[2] or x[1]) if x[0] == "tok" else x[1] for x in ls}))


class Case:
    """children of one concrete length: letters, may trivia stand in front"""

    def __init__(s, els, gaps):
        s.els, s.gaps = els, gaps       # els: [(letters, block, role)], gaps: [bool], one more than els

    def show(s):
        out = []
        for i, (ls, b, r) in enumerate(s.els):
            if s.gaps[i]:
                out.append("~")
            out.append(name(ls))
        return " ".join(out + ["~"] * s.gaps[-1])


def expand(word, splits):
    cases = [Case([], [])]
    for bi, b in enumerate(word):
        new = []
        for c in cases:
            if b[0] == "t":
                new.append(Case(c.els, c.gaps + [True] if len(c.gaps) == len(c.els) else c.gaps))
                continue
            opts = [0, 1, 3] if b[0] == "many" else [None]
            for k in opts:
                els, gaps = list(c.els), list(c.gaps)
                for j in range(1 if k is None else k):
                    t = b[0] == "many" and b[2]
                    if len(gaps) == len(els):
                        gaps.append(bool(t))
                    elif t:
                        gaps[-1] = True
                    els.append((b[1], bi if k else None, "FML"[j] if k == 3 else "F"))
                new.append(Case(els, gaps))
        cases = new
    for c in cases:
        if len(c.gaps) == len(c.els):
            c.gaps.append(False)
    return cases


class Eval:
    def __init__(s, prog, self_ty, case):
        s.p, s.ty, s.c = prog, self_ty, case
        s.assume = {}
        s.depth = 0

    # ---- conditions
    def simp(s, c):
        if isinstance(c, bool):
            return c
        if c.op == "key":
            return s.assume.get(c.a[0], c)
        if c.op == "!":
            a = s.simp(c.a[0])
            return (not a) if isinstance(a, bool) else Cond("!", a)
        a = s.simp(c.a[0])
        if isinstance(a, bool):
            if (c.op == "&&") != a:
                return a
            return s.simp(c.a[1])
        b = s.simp(c.a[1])
        if isinstance(b, bool) and (c.op == "&&") != b:
            return b
        if isinstance(b, bool):
            return a
        return Cond(c.op, a, b)

    def key(s, c):
        return c.a[0] if c.op == "key" else s.key(c.a[0])

    def branch(s, c, then, other, roots):
        c = s.simp(c)
        if c is True:
            return then()
        if c is False:
            return other()
        k = s.key(c)
        cells = s.reach(roots)
        before = [s.snap(x) for x in cells]
        res = []
        for val in (True, False):
            s.assume[k] = val
            try:
                v = s.branch(c, then, other, roots)
            finally:
                del s.assume[k]
            now = s.reach(roots)
            if any(x not in cells for x in now if isinstance(x, Env)):
                raise Unsupported("closures made in a branch")
            res.append((v, [s.snap(x) for x in cells]))
            for x, b in zip(cells, before):
                s.restore(x, b)
        (va, sa), (vb, sb) = res
        for x, a, b in zip(cells, sa, sb):
            s.restore(x, s.join(k, a, b))
        return s.joinv(k, va, vb)

    def reach(s, roots):
        out, todo = [], list(roots)
        while todo:
            x = todo.pop()
            if isinstance(x, Env):
                if x in out:
                    continue
                out.append(x)
                if x.up is not None:
                    todo.append(x.up)
                todo += x.v.values()
            elif isinstance(x, (V, It)):
                if not any(x is y for y in out):
                    out.append(x)
            elif isinstance(x, Fn):
                todo.append(x.env)
            elif isinstance(x, Some):
                todo.append(x.v)
            elif isinstance(x, tuple):
                todo += x
        return out

    def snap(s, x):
        return dict(x.v) if isinstance(x, Env) else list(x.items)

    def restore(s, x, b):
        if isinstance(x, Env):
            x.v = dict(b)
        else:
            x.items = list(b)

    def under(s, k, val, items):
        """items with what the assumption makes empty left out"""
        out = []
        for i in items:
            if i[0] == "gap" and k == ("empty", i[1]) and val:
                continue
            if i[0] == "if" and i[1] == k:
                out += s.under(k, val, i[2 if val else 3])
                continue
            out.append(i)
        return out

    def join(s, k, a, b):
        if isinstance(a, dict):
            if a.keys() != b.keys():
                raise Unsupported("variables differ between branches")
            return {n: s.joinv(k, a[n], b[n]) for n in a}
        if a and not isinstance(a[0], tuple) or b and not isinstance(b[0], tuple):
            if len(a) != len(b) or any(x is not y and x != y for x, y in zip(a, b)):
                raise Unsupported("iterators differ between branches")
            return a
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        ta, tb = s.under(k, True, a[n:]), s.under(k, False, b[n:])
        if ta == tb:
            return a[:n] + ta
        return a[:n] + [("if", k, tuple(ta), tuple(tb))]

    def joinv(s, k, a, b):
        if a is b:
            return a
        if isinstance(a, V) and isinstance(b, V):
            return V(s.join(k, a.items, b.items))
        if isinstance(a, Doc) and isinstance(b, Doc):
            return a if a == b else Doc([("if", k, a.atoms, b.atoms)])
        if isinstance(a, bool) and isinstance(b, bool):
            return a if a == b else Cond("key", k) if a else Cond("!", Cond("key", k))
        if isinstance(a, It) and isinstance(b, It) and a.items == b.items:
            return a
        if type(a) is type(b) and a == b:
            return a
        raise Unsupported("values differ between branches")

    def empty(s, v):
        r = True
        if any(i[0] == "d" for i in v.items):
            return False
        for i in v.items:
            if i[0] == "gap":
                c = Cond("key", ("empty", i[1]))
            else:
                k, a, b = Cond("key", i[1]), s.empty(V(i[2])), s.empty(V(i[3]))
                c = Cond("||", Cond("&&", k, a), Cond("&&", Cond("!", k), b))
            r = c if r is True else Cond("&&", r, c)
        return s.simp(r)

    # ---- elements
    def letters(s, i):
        return s.c.els[i][0]

    def test(s, i, f):
        """f(letter) on the i-th child: True or False for all letters, or the case is split"""
        yes = frozenset(x for x in s.letters(i) if f(x))
        if yes and yes != s.letters(i):
            if s.c.els[i][1] is not None:
                raise Unsupported("a condition on one of several repeated children")
            raise Split(i, yes)
        return bool(yes)

    def gap(s, i):
        return V([("gap", i)]) if s.c.gaps[i] else V()

    def children_with_tokens(s, i=0):
        out = []
        for j in range(i, len(s.c.els)):
            if s.c.gaps[j]:
                out.append(Gap(j))
            out.append(El(j))
        if s.c.gaps[-1]:
            out.append(Gap(len(s.c.els)))
        return out

    def accepts(s, ty, i):
        ks = s.p.accepts(ty)
        return s.test(i, lambda x: x[0] == "node" and x[1] in ks)

    def on_gap(s, g, f):
        """f on a trivia token, which may have any of the trivia kinds"""
        rs = [f(Gap(g.i, k)) for k in TRIVIA]
        if any(r != rs[0] for r in rs[1:]):
            raise Unsupported("a condition on the kind of trivia")
        return rs[0]

    # ---- statements and expressions
    def block(s, b, env):
        v = ()
        for n, st in enumerate(b["s"]):
            if st["k"] == "let":
                x = s.ev(st["e"], env) if st.get("e") else None
                if st.get("els") or st.get("else"):
                    raise Unsupported("let else")
                if not s.bind(st["p"], x, env):
                    raise Unsupported("pattern of let")
                v = ()
            elif st["k"] == "expr":
                v = s.ev(st["e"], env)
                if st["semi"]:
                    v = ()
            else:
                raise Unsupported(st["k"])
        return v

    def bind(s, p, v, env):
        k = p["k"]
        if k == "pid" and not p.get("sub"):
            if p["n"][0].isupper():
                return s.bind({"k": "ppath", "p": p["n"]}, v, env)
            env.v[p["n"]] = v
            return True
        if k == "pwild":
            return True
        if k == "pref":
            return s.bind(p["e"], v, env)
        if k == "ptuple":
            if not isinstance(v, tuple) or len(v) != len(p["e"]):
                raise Unsupported("tuple")
            return all([s.bind(q, x, env) for q, x in zip(p["e"], v)])
        if k in ("pts", "ppath"):
            n = p["p"].split("::")
            if n[-1] in ("Some", "None"):
                if isinstance(v, MaybeSome):
                    raise Unsupported("a part of a child")
                if (n[-1] == "Some") != isinstance(v, Some):
                    return False
                return n[-1] == "None" or s.bind(p["e"][0], v.v, env)
            if isinstance(v, (El, Gap)) and n[-1] in ("Node", "Token"):
                return s.is_node(v) == (n[-1] == "Node") and s.bind(p["e"][0], v, env)
            if isinstance(v, El) and len(n) == 2 and (n[0] == v.ty or n[0] == "Self"):
                t = s.p.variant(v.ty, n[1])
                if not s.accepts_any(t, v):
                    return False
                return s.bind(p["e"][0], El(v.i, t), env)
            if isinstance(v, str) and n[0] == "SyntaxKind":
                return v == n[-1]
        if k == "por":
            return any(s.bind(q, v, env) for q in p["e"])
        if k == "plit" and isinstance(v, bool):
            x = p["v"]
            x = x["v"] if isinstance(x, dict) else x
            return v == (x in (True, "true"))
        if k == "plit" and isinstance(v, int):
            x = p["v"]
            return v == int(x["v"] if isinstance(x, dict) else x)
        raise Unsupported("pattern " + k)

    def accepts_any(s, t, el):
        if el.i is None:
            return s.p.kind in s.p.accepts(t)
        return s.accepts(t, el.i)

    def is_node(s, v):
        if isinstance(v, Gap):
            return False
        return v.i is None or s.test(v.i, lambda x: x[0] == "node")

    def is_doc(s, e):
        return e["k"] == "path" and e["p"].startswith("Doc::")

    def ev(s, e, env):
        m = getattr(s, "e_" + e["k"], None)
        if m is None:
            raise Unsupported(e["k"])
        return m(e, env)

    def e_str(s, e, env):
        return ("lit", e["v"])

    def e_bool(s, e, env):
        return e["v"]

    def e_int(s, e, env):
        return int(e["v"])

    def e_path(s, e, env):
        p = e["p"].split("::")
        if len(p) == 1:
            if p[0] == "None":
                return None
            try:
                return env.find(p[0]).v[p[0]]
            except Unsupported:
                return ("helper", s.p.helper(p[0]))
        if p[0] == "SyntaxKind":
            return p[1]
        return ("path", e["p"])

    def e_ref(s, e, env):
        return s.ev(e["e"], env)

    def e_un(s, e, env):
        v = s.ev(e["e"], env)
        if e["o"] == "*":
            return v
        if e["o"] == "!":
            return s.simp(Cond("!", v))
        raise Unsupported("operator " + e["o"])

    def count(s, o, a, b):
        # a.n == 2 stands for all numbers from 2 (an index: from 1)
        top = 1 if isinstance(a, Idx) else 2
        f = {"<": lambda x: x < b, ">": lambda x: x > b, "<=": lambda x: x <= b, ">=": lambda x: x >= b, "==": lambda x: x == b, "!=": lambda x: x != b}[o]
        r = {f(x) for x in ([a.n] if a.n < top else range(top, max(top, b) + 3))}
        if len(r) > 1:
            raise Unsupported("comparison of a number")
        return r.pop()

    def e_bin(s, e, env):
        if e["o"] in ("<", ">", "<=", ">=", "==", "!="):
            a, b = s.ev(e["a"], env), s.ev(e["b"], env)
            if isinstance(a, Count) and isinstance(b, int):
                return s.count(e["o"], a, b)
            if e["o"] in ("==", "!="):
                r = s.equal(a, b)
                return r if e["o"] == "==" else not r
            raise Unsupported("comparison")
        if e["o"] in ("&&", "||"):
            a = s.ev(e["a"], env)
            a = s.simp(a)
            if isinstance(a, bool):
                if (e["o"] == "&&") != a:
                    return a
                return s.simp(s.ev(e["b"], env))
            return s.simp(Cond(e["o"], a, s.ev(e["b"], env)))
        raise Unsupported("operator " + e["o"])

    def equal(s, a, b):
        if isinstance(b, tuple) and b and b[0] == "kind":
            a, b = b, a
        if isinstance(a, tuple) and a and a[0] == "kind" and isinstance(b, str):
            el = a[1]
            if isinstance(el, Gap):
                return el.kind == b if el.kind else s.on_gap(el, lambda g: g.kind == b)
            return s.test(el.i, lambda x: x[1] == b)
        if isinstance(b, Text):
            a, b = b, a
        if isinstance(a, Text) and isinstance(b, tuple) and b[0] == "lit":
            if isinstance(a.el, Gap):
                raise Unsupported("text of trivia")
            if any(x[0] != "tok" or x[2] is None for x in s.letters(a.el.i)):
                raise Unsupported("text of a token")
            return s.test(a.el.i, lambda x: x[2] == b[1])
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        raise Unsupported("comparison")

    def e_matches(s, e, env):
        v = s.ev(e["e"], env)
        if e.get("g"):
            raise Unsupported("guard")
        if isinstance(v, tuple) and v and v[0] == "kind":
            def names(p):
                if p["k"] == "por":
                    return [n for q in p["e"] for n in names(q)]
                if p["k"] in ("ppath", "pid"):
                    return [(p.get("p") or p["n"]).split("::")[-1]]
                raise Unsupported("pattern")
            ns = names(e["p"])
            el = v[1]
            if isinstance(el, Gap):
                return el.kind in ns if el.kind else s.on_gap(el, lambda g: g.kind in ns)
            return s.test(el.i, lambda x: x[1] in ns)
        return s.bind(e["p"], v, Env(env))

    def e_block(s, e, env):
        return s.block(e if "s" in e else e["b"], Env(env))

    def e_macro(s, e, env):
        if e["n"] == "vec":
            items = []
            for a in e["a"] or []:
                d = s.ev(a, env)
                if not isinstance(d, Doc):
                    raise Unsupported("vector")
                items.append(("d", d.atoms))
            return V(items)
        raise Unsupported("macro " + e["n"])

    def e_closure(s, e, env):
        return Fn(e["i"], e["e"], env)

    def e_tuple(s, e, env):
        return tuple(s.ev(a, env) for a in e["e"])

    def e_return(s, e, env):
        if s.assume:
            raise Unsupported("return under a condition")
        raise Loop("return", s.ev(e["e"], env) if e.get("e") else ())

    def e_break(s, e, env):
        if s.assume:
            raise Unsupported("break under a condition")
        raise Loop("break")

    def e_continue(s, e, env):
        if s.assume:
            raise Unsupported("continue under a condition")
        raise Loop("continue")

    def e_if(s, e, env):
        env = Env(env)
        conds = []

        def flat(c):
            if c["k"] == "bin" and c["o"] == "&&":
                flat(c["a"])
                flat(c["b"])
            elif c["k"] == "paren":
                flat(c["e"])
            else:
                conds.append(c)
        if any(x.get("k") == "iflet" for x in [e["c"]] if isinstance(x, dict)) or e["c"]["k"] == "bin" and e["c"]["o"] == "&&":
            flat(e["c"])
        else:
            conds = [e["c"]]

        def other():
            return s.ev(e["e"], env.up) if e.get("e") else ()
        unknown = True
        for c in conds:
            if c["k"] == "iflet":
                if unknown is not True:
                    raise Unsupported("if let after an unknown condition")
                if not s.bind(c["p"], s.ev(c["e"], env), env):
                    return other()
            else:
                v = s.simp(s.ev(c, env))
                if v is False:
                    return other()
                if v is not True:
                    unknown = v if unknown is True else Cond("&&", unknown, v)
        if unknown is True:
            return s.block(e["t"], Env(env))
        return s.branch(unknown, lambda: s.block(e["t"], Env(env)), other, [env] + s.extra)

    extra = []

    def e_match(s, e, env):
        v = s.ev(e["e"], env)
        if isinstance(v, MaybeSome):
            raise Unsupported("match on an unknown value")
        if isinstance(v, tuple) and v and v[0] == "kind":
            v = s.the_kind(v[1])
        return s.arms(e, v, env)

    def arms(s, e, v, env):
        """unknown conditions among the value are decided first, both ways"""
        if isinstance(v, Cond):
            return s.branch(v, lambda: s.arms(e, True, env), lambda: s.arms(e, False, env), [env] + s.extra)
        if isinstance(v, tuple):
            for j, x in enumerate(v):
                if isinstance(x, Cond):
                    return s.branch(x, lambda: s.arms(e, v[:j] + (True,) + v[j + 1:], env), lambda: s.arms(e, v[:j] + (False,) + v[j + 1:], env), [env] + s.extra)
        for a in e["a"]:
            n = Env(env)
            if s.bind(a["p"], v, n):
                if a.get("g") and not s.known(s.ev(a["g"], n)):
                    continue
                return s.ev(a["e"], n)
        raise Bad("no arm of a match fits")

    def known(s, v):
        v = s.simp(v)
        if not isinstance(v, bool):
            raise Unsupported("unknown condition")
        return v

    def the_kind(s, el):
        if isinstance(el, Gap):
            if el.kind:
                return el.kind
            raise Unsupported("kind of trivia")
        if el.i is None:
            return s.p.kind
        ks = sorted({x[1] for x in s.letters(el.i)})
        if len(ks) > 1:
            s.test(el.i, lambda x: x[1] == ks[0])
        return ks[0]

    def e_assign(s, e, env):
        v = s.ev(e["b"], env)
        t = e["a"]
        while t["k"] in ("un", "paren"):
            t = t["e"]
        if t["k"] != "path" or "::" in t["p"]:
            raise Unsupported("assignment")
        c = env.find(t["p"])
        old = c.v[t["p"]]
        if isinstance(old, V) and isinstance(v, V):
            old.items = list(v.items)
        else:
            c.v[t["p"]] = v
        return ()

    def e_field(s, e, env):
        v = s.ev(e["e"], env)
        if isinstance(v, El) and e["n"] == "syntax":
            return El(v.i)
        if v == ("ctx",):
            return ("ctx",)
        if isinstance(v, tuple) and e["n"].isdigit():
            return v[int(e["n"])]
        raise Unsupported("field " + e["n"])

    # ---- loops
    def state(s, roots):
        """what the code can observe, the growth of vectors aside"""
        out = []
        for x in s.reach(roots):
            if isinstance(x, V):
                out.append((x, "V", [i for i in x.items]))
            elif isinstance(x, Env):
                out.append((x, "E", dict(x.v)))
        return out

    def same(s, a, b, shift):
        """state b (after the next of the repeated children) is state a"""
        def ren(i):
            return ("gap", i[1] + 1) if i[0] == "gap" else i
        da = {id(x): (k, v) for x, k, v in a}
        for x, k, v in b:
            if id(x) not in da:
                if isinstance(x, V) or isinstance(x, Env) and x.v:
                    # made in the loop body
                    continue
                continue
            v0 = da[id(x)][1]
            if k == "V":
                if v[:len(v0)] == v0 and (s.empty(V(v0)) is False or v == v0):
                    continue
                if [ren(i) for i in v0] == v:
                    continue
                return False
            for n in v0:
                p, q = v0[n], v.get(n)
                if p is q or isinstance(p, (V, It)) and type(p) is type(q):
                    continue
                if isinstance(p, (El, Gap)) or isinstance(p, Some):
                    return False
                if type(p) is not type(q) or p != q:
                    return False
        return True

    def each(s, items, step, roots):
        prev = None
        for it in items:
            if isinstance(it, El) and it.i is not None and s.c.els[it.i][1] is not None:
                blk, role = s.c.els[it.i][1:]
                if role == "M":
                    prev = s.state(roots)
                elif role == "L":
                    if prev is None or not s.same(prev, s.state(roots), 1):
                        raise Unsupported("no fixpoint of a loop")
            try:
                step(it)
            except Loop as x:
                if x.kind == "break":
                    return
                if x.kind == "return":
                    raise

    def e_for(s, e, env):
        it = s.iter(s.ev(e["e"], env))

        def step(x):
            n = Env(env)
            if not s.bind(e["p"], x, n):
                raise Unsupported("pattern of for")
            s.block(e["b"], n)
        items, it.items = it.items, []
        s.each(items, step, [env] + s.extra)
        return ()

    def e_while(s, e, env):
        if e["c"]["k"] != "iflet":
            raise Unsupported("while")
        prev = None
        for k in range(50):
            n = Env(env)
            at = s.ev(e["c"]["e"], n)
            x = at.v if isinstance(at, Some) else None
            if isinstance(x, El) and x.i is not None and s.c.els[x.i][1] is not None:
                role = s.c.els[x.i][2]
                if role == "M":
                    prev = s.state([env] + s.extra)
                elif role == "L" and (prev is None or not s.same(prev, s.state([env] + s.extra), 1)):
                    raise Unsupported("no fixpoint of a loop")
            if not s.bind(e["c"]["p"], at, n):
                return ()
            try:
                s.block(e["b"], n)
            except Loop as y:
                if y.kind == "break":
                    return ()
                if y.kind == "return":
                    raise
        raise Unsupported("a loop that does not end")

    def iter(s, v):
        if isinstance(v, It):
            return v
        raise Unsupported("iteration")

    def apply(s, f, args):
        if isinstance(f, tuple) and f and f[0] == "path":
            p = f[1].split("::")
            if p[0] == "Doc" and len(p) == 2 and not args:
                return s.e_call({"f": {"k": "path", "p": f[1]}, "a": []}, Env())
            if len(p) == 2 and len(args) == 1:
                return s.method(args[0], p[1], [], None) if p[1] != "cast" else s.cast(p[0], args[0])
        if isinstance(f, tuple) and f and f[0] == "helper":
            return s.run(f[1], args)
        if not isinstance(f, Fn) or len(f.pats) != len(args):
            raise Unsupported("call of a closure")
        n = Env(f.env)
        for p, a in zip(f.pats, args):
            if not s.bind(p, a, n):
                raise Unsupported("pattern of a closure")
        s.depth += 1
        if s.depth > 60:
            raise Unsupported("recursion")
        try:
            return s.ev(f.body, n)
        finally:
            s.depth -= 1

    def pred(s, f, x):
        if isinstance(x, Gap) and x.kind is None:
            return s.on_gap(x, lambda g: s.known(s.apply(f, [g])))
        return s.known(s.apply(f, [x]))

    # ---- calls
    def e_call(s, e, env):
        if e["f"]["k"] != "path":
            raise Unsupported("call")
        p = e["f"]["p"].split("::")
        t = e["f"].get("t") or ""
        if p[0] == "Doc" and len(p) == 2:
            a = [s.ev(x, env) for x in e["a"]]
            if p[1] in WS:
                return Doc([("ws", p[1])])
            if p[1] == "nil":
                return Doc([])
            if p[1] == "list" and isinstance(a[0], V):
                return Doc(s.atoms(a[0]))
            if p[1] == "text":
                if isinstance(a[0], tuple) and a[0][0] == "lit":
                    return Doc([a[0]])
                if isinstance(a[0], Text):
                    return Doc([("el", a[0].el.i)])
            raise Unsupported("Doc::" + p[1])
        if p[-2:] in (["Vec", "with_capacity"], ["Vec", "new"]):
            return V()
        if p[-1] == "Some":
            return Some(s.ev(e["a"][0], env))
        if p[-1] == "cast" and len(p) == 2:
            return s.cast(p[0], s.ev(e["a"][0], env))
        if p[-1] in ("token", "child", "children") and (len(p) == 1 or p[-2] == "support"):
            a = [s.ev(x, env) for x in e["a"]]
            if not isinstance(a[0], El):
                raise Unsupported("support")
            if p[-1] == "token":
                if a[0].i is not None:
                    return MaybeSome(("child", a[0].i, f"token({a[1]})"))
                for j in range(len(s.c.els)):
                    if s.test(j, lambda x: x[0] == "tok" and x[1] == a[1]):
                        return Some(El(j))
                return None
            m = re.search(r"::<(?:\w+::)*(\w+)>$", t)
            ty = m.group(1) if m else s.want
            if ty is None:
                raise Unsupported("type of a child")
            if a[0].i is not None:
                if p[-1] == "child":
                    return MaybeSome(("child", a[0].i, f"child({ty})"))
                raise Unsupported("children of a child")
            js = [El(j, ty) for j in range(len(s.c.els)) if s.accepts(ty, j)]
            if p[-1] == "child":
                return Some(js[0]) if js else None
            return It(js)
        if len(p) == 1:
            return s.function(p[0], [s.ev(x, env) for x in e["a"]])
        if len(p) == 2 and e["a"]:
            a = [s.ev(x, env) for x in e["a"]]
            return s.method(a[0], p[1], a[1:], e)
        raise Unsupported("call of " + e["f"]["p"])

    def cast(s, ty, el):
        if not isinstance(el, El):
            raise Unsupported("cast")
        return Some(El(el.i, ty)) if s.accepts_any(ty, el) else None

    def after(s, el):
        if not isinstance(el, El) or el.i is None:
            raise Unsupported("trivia after something")
        return s.gap(el.i + 1)

    def function(s, n, a):
        if n == "format_trivias_after_token":
            if s.is_node(a[0]):
                raise Unsupported("not a token")
            return s.after(a[0])
        if n == "format_trivias_after_node":
            return s.after(a[0])
        if n == "format_leading_trivias":
            it = s.iter(a[0])
            if it.items and isinstance(it.items[0], Gap):
                return V([("gap", it.items[0].i)])
            return V()
        if n == "should_ignore":
            if not isinstance(a[0], El) or a[0].i is None:
                raise Unsupported("should_ignore")
            return Cond("key", ("ignored", a[0].i))
        if n == "reflow":
            if not isinstance(a[0], Text) or not isinstance(a[1], V):
                raise Unsupported("reflow")
            a[1].items.append(("d", (("el", a[0].el.i),)))
            return ()
        f = s.p.helper(n)
        return s.run(f, a)

    def run(s, f, args, want=None):
        s.depth += 1
        if s.depth > 60:
            raise Unsupported("recursion")
        env = Env()
        env.v["ctx"] = ("ctx",)
        old, s.want = s.want, want
        old_extra, s.extra = s.extra, s.extra + [a for a in args]
        try:
            for q, a in zip(f["i"], args):
                if not s.bind(q["p"], a, env):
                    raise Unsupported("parameter")
            try:
                return s.block(f["b"], env)
            except Loop as x:
                if x.kind == "return":
                    return x.v
                raise Unsupported(x.kind)
        finally:
            s.depth -= 1
            s.want, s.extra = old, old_extra

    want = None

    def atoms(s, v):
        out = []
        for i in v.items:
            if i[0] == "d":
                out += i[1]
            elif i[0] == "gap":
                out.append(i)
            else:
                out.append(("if", i[1], tuple(s.atoms(V(i[2]))), tuple(s.atoms(V(i[3])))))
        return out

    def e_mcall(s, e, env):
        return s.method(s.ev(e["r"], env), e["m"], [s.ev(a, env) for a in e["a"]], e)

    def method(s, r, m, a, e):
        if isinstance(r, Doc):
            if m in ("nest", "group", "clone"):
                return r
        if isinstance(r, V):
            if m == "push" and isinstance(a[0], Doc):
                r.items.append(("d", a[0].atoms))
                return ()
            if m in ("append", "extend") and isinstance(a[0], V):
                r.items += a[0].items
                a[0].items = []
                return ()
            if m == "extend" and (a[0] is None or isinstance(a[0], (Some, It))):
                ds = a[0].items if isinstance(a[0], It) else [a[0].v] if a[0] else []
                if any(not isinstance(d, Doc) for d in ds):
                    raise Unsupported("extend")
                r.items += [("d", d.atoms) for d in ds]
                return ()
            if m == "is_empty":
                return s.empty(r)
            if m == "clear":
                r.items = []
                return ()
            if m in ("into_iter", "iter", "drain"):
                return r
        if isinstance(r, (Cond, bool)) and m == "then_some":
            raise Unsupported(m)
        if isinstance(r, MaybeSome) and m in ("is_some", "is_none"):
            c = Cond("key", r.key)
            return s.simp(c if m == "is_some" else Cond("!", c))
        if r is None or isinstance(r, Some):
            if m in ("is_some", "is_none"):
                return (r is not None) == (m == "is_some")
            if m == "map":
                return Some(s.apply(a[0], [r.v])) if r else None
            if m == "filter":
                return r if r and s.known(s.apply(a[0], [r.v])) else None
            if m == "and_then":
                return s.apply(a[0], [r.v]) if r else None
            if m == "unwrap_or_else":
                return r.v if r else s.apply(a[0], [])
            if m == "map_or" and len(a) == 2:
                return s.apply(a[1], [r.v]) if r else a[0]
            if m == "map_or_else" and len(a) == 2:
                return s.apply(a[1], [r.v]) if r else s.apply(a[0], [])
            if m in ("as_ref", "cloned", "as_mut"):
                return r
            if m in ("is_some_and",):
                return s.apply(a[0], [r.v]) if r else False
            if m == "or_else":
                return r if r else s.apply(a[0], [])
            if m == "into_iter" or m == "iter":
                return It([r.v] if r else [])
        if isinstance(r, It):
            return s.iterator(r, m, a)
        if isinstance(r, (El, Gap)):
            if m in ("clone", "borrow", "as_ref", "to_owned"):
                return r
            if m == "kind":
                return ("kind", r)
            if m == "into_token":
                return None if s.is_node(r) else Some(r)
            if m == "as_token":
                return None if s.is_node(r) else Some(r)
            if m in ("into_node", "as_node"):
                return Some(r) if s.is_node(r) else None
            if m == "text" or m == "to_string":
                return Text(r)
            if isinstance(r, El):
                if m == "syntax":
                    return El(r.i)
                if m == "doc":
                    if r.i is not None and not s.is_node(r):
                        raise Unsupported("doc of a token")
                    s.p.need_doc(r.ty)
                    return Doc([("el", r.i)])
                if m == "children_with_tokens" and r.i is None:
                    return It(s.children_with_tokens())
                if m == "children" and r.i is None:
                    return It([El(j) for j in range(len(s.c.els)) if s.is_node(El(j))])
                if m == "first_token" and r.i is None:
                    for x in s.children_with_tokens():
                        if isinstance(x, Gap):
                            raise Unsupported("first token")
                        if s.is_node(x):
                            raise Unsupported("first token of a child")
                        return Some(x)
                    return None
                if r.ty is not None:
                    f, want = s.p.accessor(r.ty, m)
                    if r.i is None:
                        return s.run(f, [r] + a, want)
                    if m == "l_paren_token" and s.is_node(r):
                        return Some(("a token of a child",)) if s.test(r.i, lambda x: s.p.has_paren(x[1], x[2])) else None
                    if not a and f["o"] and f["o"].startswith("Option"):
                        return MaybeSome(("child", r.i, m))
        if isinstance(r, Text) and m in ("to_string", "to_owned", "into", "clone", "as_str"):
            return r
        if isinstance(r, tuple) and r and r[0] == "lit" and m in ("to_string", "to_owned", "into"):
            return r
        raise Unsupported("method " + m)

    def iterator(s, r, m, a):
        if m == "next":
            if not r.items:
                return None
            if isinstance(r.items[0], Gap):
                raise Unsupported("one trivia token")
            return Some(r.items.pop(0))
        items = r.items
        if m in ("into_iter", "by_ref", "peekable", "iter"):
            return r
        if m == "enumerate" and not any(isinstance(x, Gap) for x in items):
            return It([(Idx(min(j, 1)), x) for j, x in enumerate(items)])
        if m in ("for_each", "fold"):
            r.items = []
            roots = s.extra + [a[-1]]
            if m == "for_each":
                s.each(items, lambda x: s.apply(a[0], [x]), roots)
                return ()
            acc = [a[0]]

            def step(x):
                s.extra = s.extra + [acc[0]]
                try:
                    acc[0] = s.apply(a[1], [acc[0], x])
                finally:
                    s.extra = s.extra[:-1]
            s.each(items, step, roots + [a[0]])
            return acc[0]
        if m in ("filter", "take_while", "skip_while"):
            out, on = [], False
            for x in items:
                if m == "skip_while" and on:
                    out.append(x)
                    continue
                v = s.pred(a[0], x)
                if m == "filter" and v:
                    out.append(x)
                elif m == "take_while":
                    if not v:
                        break
                    out.append(x)
                elif m == "skip_while" and not v:
                    on = True
                    out.append(x)
            return It(out)
        if m in ("filter_map", "map"):
            out = []
            for x in items:
                if isinstance(x, Gap):
                    v = s.on_gap(x, lambda g: s.apply(a[0], [g]) is None)
                    if v:
                        continue
                    y = s.apply(a[0], [Gap(x.i, TRIVIA[0])])
                    if not (isinstance(y, Some) and isinstance(y.v, Gap)):
                        raise Unsupported("map of trivia")
                    out.append(x)
                    continue
                v = s.apply(a[0], [x])
                if m == "map":
                    out.append(v)
                elif isinstance(v, Some):
                    out.append(v.v)
                elif v is not None:
                    raise Unsupported("filter_map")
            return It(out)
        if m in ("find", "any", "all", "find_map"):
            for k, x in enumerate(items):
                if m == "find_map":
                    v = s.apply(a[0], [x])
                    if v is not None:
                        r.items = items[k + 1:]
                        return v
                    continue
                v = s.pred(a[0], x)
                if m == "find" and v:
                    if isinstance(x, Gap):
                        raise Unsupported("one trivia token")
                    r.items = items[k + 1:]
                    return Some(x)
                if m == "any" and v:
                    return True
                if m == "all" and not v:
                    return False
            r.items = []
            return {"find": None, "find_map": None, "any": False, "all": True}[m]
        if m == "nth" and len(a) == 1 and isinstance(a[0], int) and not any(isinstance(x, Gap) for x in items[:a[0] + 1]):
            r.items = items[a[0] + 1:]
            return Some(items[a[0]]) if a[0] < len(items) else None
        if m == "skip" and len(a) == 1 and isinstance(a[0], int) and not any(isinstance(x, Gap) for x in items[:a[0]]):
            return It(items[a[0]:])
        raise Unsupported("iterator method " + m)


class Program:
    def __init__(s, repo):
        s.shapes = Shapes(repo).go()
        s.items, _, s.names, s.types = kinds_and_types(repo)
        s.node = Node(s.items)
        s.kinds = {k: CEnum((k, ())) for k in s.names}
        s._acc = {}
        s.docs, s.fns, s.impls = {}, {}, {}
        for f, items in load(repo, "crates/formatter/src"):
            for path, i in walk(items):
                if i["k"] != "fn":
                    continue
                if path and path[-1][0] == "impl" and (path[-1][2] or "").split("::")[-1] == "DocGen" and i["n"] == "doc":
                    s.docs[path[-1][1]] = i
                elif not path or path[-1][0] == "mod":
                    if i["n"] in s.fns:
                        s.fns[i["n"]] = None
                    else:
                        s.fns[i["n"]] = i
        for path, i in walk(s.items):
            if i["k"] == "fn" and path and path[-1][0] == "impl":
                s.impls[(re.sub(r"<.*", "", path[-1][1]), i["n"])] = i
            elif i["k"] == "fn":
                s.impls[(None, i["n"])] = i
        s.kind = None

    def accepts(s, t):
        if t not in s._acc:
            if t not in s.types:
                raise Unsupported("type " + t)
            s._acc[t] = {k for k, v in s.kinds.items() if s.node.method(t, "can_cast", [v])}
        return s._acc[t]

    def variant(s, t, n):
        i = s.types.get(t)
        if i and i["k"] == "enum":
            for v in i["v"]:
                if v["n"] == n and len(v["f"]) == 1:
                    return re.sub(r".*::", "", v["f"][0])
        raise Unsupported(f"variant {t}::{n}")

    def helper(s, n):
        f = s.fns.get(n) or s.impls.get((None, n))
        if f is None:
            raise Unsupported("function " + n)
        return f

    def accessor(s, t, n):
        f = s.impls.get((t, n))
        if f is None:
            raise Unsupported(f"{t}::{n}")
        m = re.match(r"(?:Option|AstChildren)<(?:\w+::)*(\w+)>$", f["o"] or "")
        return f, m.group(1) if m else None

    def need_doc(s, t):
        if t not in s.docs:
            raise Unsupported(f"{t} has no doc")

    # ---- the contract of one case
    def check(s, ty, case):
        """'' or what is wrong"""
        ev = Eval(s, ty, case)
        ev.extra = []
        doc = ev.run(s.docs[ty], [El(None, ty), ("ctx",)])
        if not isinstance(doc, Doc):
            raise Unsupported("result of doc")
        return s.walk(case, doc.atoms)

    def walk(s, case, atoms):
        n = len(case.els)

        def desc(k):
            return name(case.els[k][0])

        def is_tok(k, kind):
            return all(x[0] == "tok" and x[1] == kind for x in case.els[k][0])
        # state: children printed, gap done, white space since the last child, is the child on the left to be separated, assumptions
        start = (0, not case.gaps[0], False, bool(case.gaps[0]), frozenset())

        def emit(st, k):
            at, gd, ws, left, asm = st
            if k != at:
                raise Bad(f"{desc(k)} is printed {'again' if k < at else 'before ' + desc(at)}")
            if not gd and ("empty", k) not in dict(asm) and case.gaps[k]:
                raise Bad(f"comments in front of {desc(k)} are not printed")
            if not gd and dict(asm).get(("empty", k)) is False:
                raise Bad(f"comments in front of {desc(k)} are not printed")
            if ws and not case.gaps[k]:
                raise Bad(f"white space in front of {desc(k)}, where none may stand")
            if left and not ws and not is_tok(k, "R_PAREN") and not s.separates(case.els[k][0]):
                raise Bad(f"nothing stands between {desc(k - 1) if k else 'the text on the left'} and {desc(k)}")
            return (k + 1, not case.gaps[k + 1], False, not is_tok(k, "L_PAREN"), asm)

        def go(sts, atoms):
            for a in atoms:
                new = set()
                for st in sts:
                    at, gd, ws, left, asm = st
                    if a[0] == "ws":
                        if at > n - 1 and not case.gaps[n]:
                            raise Bad("white space at the end")
                        new.add((at, gd, True, left, asm))
                    elif a[0] == "gap":
                        v = dict(asm).get(("empty", a[1]))
                        if v is True:
                            new.add(st)
                            continue
                        if a[1] != at or gd:
                            raise Bad("comments " + (f"in front of {desc(a[1])}" if a[1] < n else "at the end") + (" are printed twice" if a[1] == at else f" are printed {'in front of ' + desc(at) if at < n else 'at the end'}"))
                        if v is False:
                            new.add((at, True, True, left, asm))
                        else:
                            # the gap holds comments (which come with white space around them), or it holds nothing to be printed
                            new.add((at, True, True, left, asm | {(("empty", a[1]), False)}))
                            new.add((at, gd, ws, left, asm | {(("empty", a[1]), True)}))
                    elif a[0] == "el":
                        if a[1] is None:
                            if at or len(atoms) != 1 or n != 1 or any(case.gaps):
                                raise Unsupported("the text of the whole node")
                            new.add(emit(st, 0))
                        else:
                            new.add(emit(st, a[1]))
                    elif a[0] == "lit":
                        if at >= n:
                            raise Bad(f"`{a[1]}` is printed after the last child")
                        if any(x[0] != "tok" or x[2] != a[1] for x in case.els[at][0]):
                            raise Bad(f"`{a[1]}` is printed instead of {desc(at)}")
                        new.add(emit(st, at))
                    elif a[0] == "if":
                        d = dict(asm)
                        for val, tail in ((True, a[2]), (False, a[3])):
                            if d.get(a[1], val) != val:
                                continue
                            d2 = frozenset(list(asm) + [(a[1], val)]) if a[1] not in d else asm
                            new |= go({(at, gd, ws, left, d2)}, tail)
                    else:
                        raise Unsupported(a[0])
                # assumptions about gaps that are behind don't matter any more
                sts = set()
                for at, gd, ws, left, asm in new:
                    sts.add((at, gd, ws, left, frozenset(x for x in asm if x[0][1] >= at)))
                if len(sts) > 64:
                    raise Unsupported("too many states")
            return sts
        try:
            for at, gd, ws, left, asm in go({start}, atoms):
                if at != n:
                    raise Bad(f"{desc(at)} is not printed")
                if case.gaps[n] and not gd and dict(asm).get(("empty", n)) is not True:
                    raise Bad("comments at the end are not printed")
        except Bad as x:
            return str(x)
        return ""

    def has_paren(s, kind, which):
        ws = {any(b[0] == "one" and any(y[0] == "tok" and y[1] == "L_PAREN" for y in b[1]) for b in w) for w in s.shapes.language(kind, which)}
        if len(ws) != 1:
            raise Unsupported("parentheses of a child")
        return ws.pop()

    def separates(s, letters):
        """the child prints white space first, or nothing"""
        return all(x[0] == "node" and all(not w or w[0][0] == "t" or w[0][0] == "many" and w[0][2] for w in s.shapes.language(x[1], x[2])) for x in letters)

    def cases(s, kind, ty):
        out = []
        for w in s.shapes.language(kind):
            for w2 in known_order(kind, w):
                for c in expand(w2, None):
                    todo = [c]
                    while todo:
                        c = todo.pop()
                        try:
                            out.append((c, s.check(ty, c)))
                        except Split as x:
                            for part in (x.part, c.els[x.i][0] - x.part):
                                els = list(c.els)
                                els[x.i] = (part,) + els[x.i][1:]
                                todo.append(Case(els, c.gaps))
                        except Bad as x:
                            out.append((c, str(x)))
        return out


def known_order(kind, w):
    """Known finding: inline imports are printed in front of inline exports. The contract covers functions that have them in this order."""
    if kind == "MODULE_FIELD_FUNC":
        for i, b in enumerate(w):
            if b[0] == "many" and {x[1] for x in b[1]} == {"EXPORT", "IMPORT"}:
                im, ex = [frozenset(x for x in b[1] if x[1] == k) for k in ("IMPORT", "EXPORT")]
                return [w[:i] + (("many", im, b[2]), ("many", ex, b[2])) + w[i + 1:]]
    return [w]


# ---------------------------------------------------------------- trivia, comments, the root and ranges

class Fork(Exception):
    def __init__(s, key):
        s.key = key


class Tok:
    """an element of which only the kind and the number of line breaks (0, 1, more) are known"""

    def __init__(s, kind, nl=None, node=False, n=0):
        s.kind, s.nl, s.node, s.n = kind, nl, node, n

    def show(s):
        return s.kind + (f" with {['no', 'one', 'several'][s.nl]} line break{'s' * (s.nl != 1)}" if s.nl is not None else "")

    def id(s):
        return (s.kind, s.nl)


ABS = [Tok("WHITESPACE", 0), Tok("WHITESPACE", 1), Tok("WHITESPACE", 2), Tok("LINE_COMMENT"), Tok("BLOCK_COMMENT"), Tok("ERROR"), Tok("R_PAREN"), Tok("KEYWORD"),
       Tok("IDENT"), Tok("PLAIN_INSTR", None, True), Tok("MODULE_FIELD_FUNC", None, True)]


class Chain:
    """an unknown sequence of elements after map_while, skip_while and the like"""

    def __init__(s, stages=(), start=None):
        s.stages, s.start = tuple(stages), start


class Str:
    """text built from pieces: ("lit", text) or ("var", name)"""

    def __init__(s, parts):
        s.parts = tuple(parts)

    def __eq__(s, o):
        return isinstance(o, Str) and s.parts == o.parts

    __hash__ = None


class Count:
    def __init__(s, n):
        s.n = n


class Idx(Count):
    pass


class TEval(Eval):
    """straight-line evaluation; unknown conditions are decided by the caller, all ways in turn"""

    def __init__(s, prog, assume):
        super().__init__(prog, None, None)
        s.assume = dict(assume)
        s.cur = None

    def branch(s, c, then, other, roots):
        c = s.simp(c)
        if isinstance(c, bool):
            return then() if c else other()
        raise Fork(s.key(c))

    def known(s, v):
        v = s.simp(v)
        if not isinstance(v, bool):
            raise Fork(s.key(v))
        return v

    def e_return(s, e, env):
        raise Loop("return", s.ev(e["e"], env) if e.get("e") else ())

    def e_break(s, e, env):
        raise Loop("break")

    def e_continue(s, e, env):
        raise Loop("continue")

    def e_char(s, e, env):
        return ("char", e["v"])

    def e_array(s, e, env):
        return tuple(s.ev(a, env) for a in e["e"])

    def e_cast(s, e, env):
        return s.ev(e["e"], env)

    def e_try(s, e, env):
        v = s.ev(e["e"], env)
        if v is None:
            raise Loop("return", None)
        if isinstance(v, Some):
            return v.v
        raise Unsupported("?")

    def e_field(s, e, env):
        v = s.ev(e["e"], env)
        if v == ("ctx",):
            return Cond("key", "format_comments") if e["n"] == "format_comments" else ("ctx",)
        if isinstance(v, tuple) and v and v[0] in ("options", "opaque"):
            return v
        return super().e_field(e, env)

    def e_bin(s, e, env):
        if e["o"] in ("<", ">", "<=", ">=", "==", "!="):
            a, b = s.ev(e["a"], env), s.ev(e["b"], env)
            if isinstance(a, Count) and isinstance(b, int):
                return s.count(e["o"], a, b)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "char":
                r = a[1] == b[1]
            elif isinstance(a, str) and isinstance(b, str):
                r = a == b
            else:
                raise Unsupported("comparison")
            return r if e["o"] == "==" else not r
        return super().e_bin(e, env)

    def e_matches(s, e, env):
        v = s.ev(e["e"], env)
        if e.get("g"):
            raise Unsupported("guard")
        return s.bind(e["p"], v, Env(env))

    def e_macro(s, e, env):
        if e["n"] == "format":
            m = re.match(r'^"((?:[^"\\{}]|\{\w*\})*)"(.*)$', e["t"].strip())
            if not m:
                raise Unsupported("format!")
            args = [s.ev(a, env) for a in (e["a"] or [])[1:]]
            parts = []
            for x in re.split(r"(\{\w*\})", m.group(1)):
                if x.startswith("{"):
                    v = s.ev({"k": "path", "p": x[1:-1], "t": x[1:-1]}, env) if x != "{}" else args.pop(0)
                    parts += s.str(v).parts
                elif x:
                    parts.append(("lit", x))
            return Str(parts)
        return super().e_macro(e, env)

    def str(s, v):
        if isinstance(v, Str):
            return v
        if isinstance(v, tuple) and v and v[0] == "lit":
            return Str([v])
        raise Unsupported("text")

    def bind(s, p, v, env):
        k = p["k"]
        if isinstance(v, Count) and k == "plit":
            x = p["v"]
            x = int(x["v"]) if isinstance(x, dict) else int(x)
            if isinstance(v, Idx) or x >= 2 and v.n == 2:
                raise Unsupported("pattern of a number")
            return v.n == x
        if isinstance(v, Tok):
            if k in ("pts", "ppath") and p["p"].split("::")[-1] in ("Node", "Token"):
                return v.node == (p["p"].split("::")[-1] == "Node") and s.bind(p["e"][0], v, env)
        if isinstance(v, tuple) and v and v[0] == "nd" and k in ("pts", "ppath") and p["p"].split("::")[-1] in ("Node", "Token"):
            return p["p"].split("::")[-1] == "Node" and s.bind(p["e"][0], v, env)
        if isinstance(v, Cond) and k not in ("pid", "pwild"):
            v = s.known(v)
        return super().bind(p, v, env)

    def match_guard(s, g, env):
        return s.known(s.ev(g, env))

    def cast(s, ty, el):
        if isinstance(el, Tok):
            return Some(el) if el.node and el.kind in s.p.accepts(ty) else None
        if isinstance(el, tuple) and el and el[0] == "nd":
            return super().cast(ty, el)
        return super().cast(ty, el)

    def e_call(s, e, env):
        if e["f"]["k"] == "path":
            p = e["f"]["p"].split("::")
            if p == ["Doc", "text"]:
                a = s.ev(e["a"][0], env)
                if isinstance(a, (Str, Tok)) or isinstance(a, tuple) and a and a[0] in ("lit", "line"):
                    return Doc([("text", a)])
                raise Unsupported("text")
            if p[-1] == "print" and len(e["a"]) == 2:
                a = s.ev(e["a"][0], env)
                return ("printed", a)
            if p[-1] == "new" and p[0] in ("TextSize", "Ctx") or p[-2:] == ["TextSize", "from"]:
                for a in e["a"]:
                    s.ev(a, env)
                return ("ctx",) if p[0] == "Ctx" else ("opaque",)
            if p[-1] == "build_options":
                return ("options",)
        return super().e_call(e, env)

    def function(s, n, a):
        if n in ("format_line_comment", "format_block_comment") and n != s.cur:
            if not isinstance(a[0], Tok):
                raise Unsupported(n)
            want = "LINE_COMMENT" if n == "format_line_comment" else "BLOCK_COMMENT"
            if a[0].kind != want:
                raise Bad(f"{n} is called with a {a[0].kind}")
            return Doc([("comment", a[0])])
        if n == "format_leading_trivias" and n != s.cur:
            if not isinstance(a[0], Chain):
                raise Unsupported(n)
            return ("leading", a[0])
        if n == "should_ignore":
            return Cond("key", ("ignored", a[0].n))
        if n == "reflow" and n != s.cur:
            a[1].items.append(("d", (("verbatim", a[0]),)))
            return ()
        if n == "format_node" and n != s.cur:
            if s.known(Cond("key", ("format_node", a[0]))):
                return Some(Doc([("doc of", a[0])]))
            return None
        return s.run(s.p.helper(n), a)

    def method(s, r, m, a, e):
        if isinstance(r, tuple) and r and r[0] == "leading":
            raise Unsupported(m)
        if isinstance(r, Chain):
            if m in ("map_while", "skip_while", "take_while", "filter", "filter_map"):
                return Chain(r.stages + ((m, a[0]),), r.start)
            if m == "skip":
                if a[0] != 1 or r.stages:
                    raise Unsupported("skip")
                return Chain(r.stages + (("skip1", None),), r.start)
            if m in ("collect", "iter", "into_iter", "by_ref", "as_slice", "to_vec"):
                return r
            if m in ("all", "any"):
                t = s.table(r, a[0], m == "all")
                return Cond("key", (m, t))
            if m == "is_empty":
                return Cond("key", ("all", frozenset()))
            if m == "first":
                return ("first", r)
            if m in ("for_each",):
                return s.each_of(r, lambda t: s.apply(a[0], [t]), [a[0]])
            raise Unsupported("method " + m)
        if isinstance(r, tuple) and r and r[0] == "first" and m in ("is_some_and", "is_none_or"):
            return Cond("key", (m, s.table(r[1], a[0], True)))
        if isinstance(r, Tok):
            if m == "kind":
                return r.kind
            if m in ("into_token", "as_token", "into_node", "as_node"):
                return Some(r) if r.node == m.endswith("node") else None
            if m in ("text", "to_string", "syntax", "clone", "to_owned", "into", "as_ref"):
                return r
            if m == "chars":
                return ("chars", r)
            if m == "matches" and a[0] in (("char", "\n"), ("lit", "\n")):
                return ("newlines", r)
            if m == "index":
                return Idx(min(r.n, 1))
            if m == "into_token":
                return None if r.node else Some(r)
            if m == "into_node":
                return Some(r) if r.node else None
            if m == "doc":
                return Doc([("child", r)])
            if m in ("siblings_with_tokens",) and e is not None:
                if a[0] != ("path", "Direction::Next"):
                    raise Unsupported(m)
                return Chain((), r)
            if m == "contains" and a[0] in (("char", "\n"), ("lit", "\n")):
                return r.nl > 0
        if isinstance(r, tuple) and r:
            if r[0] == "chars" and m == "filter":
                if s.known(s.apply(a[0], [("char", "\n")])) and not any(s.known(s.apply(a[0], [("char", c)])) for c in ("", " ", "\r", "\t")):
                    return ("newlines", r[1])
                raise Unsupported("filter of characters")
            if r[0] == "newlines" and m == "count":
                if r[1].nl is None:
                    raise Unsupported("line breaks")
                return Count(r[1].nl)
            if r[0] == "lit" and m in ("to_owned", "to_string", "into", "as_str"):
                return r
            if r[0] == "line" and m == "is_empty":
                return Cond("key", ("empty line", r[1]))
            if r[0] == "line" and m in ("to_owned", "to_string", "into"):
                return r
            if r[0] == "nd":
                if m in ("clone",):
                    return r
                if m == "syntax":
                    return r
                if m == "text_range":
                    return ("range of", r)
                if m == "child_or_token_at_range":
                    if a[0] != ("requested",):
                        raise Unsupported(m)
                    k = ("child", r[1])
                    if r[1] > 2:
                        return None
                    if not s.known(Cond("key", k)):
                        return None
                    if s.known(Cond("key", ("token", r[1]))):
                        return Some(Tok("IDENT"))
                    return Some(("nd", r[1] + 1))
            if r[0] in ("range of", "opaque", "options") and m in ("start", "end", "into", "line_col", "col"):
                return ("opaque",)
        if isinstance(r, Str):
            if m in ("strip_prefix", "strip_suffix"):
                return s.strip(r, a[0], m)
            if m in ("to_owned", "to_string", "into", "clone", "as_str"):
                return r
            if m == "is_empty":
                if any(x[0] == "lit" for x in r.parts):
                    return False
                return Cond("key", ("empty text",) + r.parts)
            if m in ("starts_with", "ends_with"):
                return s.edge(r.parts, m, a[0])
            if m == "lines":
                return It([("line", j) for j in range(s.lines)])
        if isinstance(r, It) and m == "peek":
            return Some(r.items[0]) if r.items else None
        if isinstance(r, It) and m in ("peekable",):
            return r
        if (r is None or isinstance(r, Some)) and m == "expect":
            if r is None:
                raise Bad("panics: " + str(a[0][1]))
            return r.v
        if (r is None or isinstance(r, Some)) and m == "unwrap":
            if r is None:
                raise Bad("panics")
            return r.v
        if r == ("root",):
            if m == "syntax":
                return r
            if m == "children_with_tokens":
                return It(s.children)
            if m == "clone":
                return ("nd", 0)
        if r == ("opaque",) and m in ("line_col", "into"):
            return r
        return super().method(r, m, a, e)

    def iter(s, v):
        return v if isinstance(v, Chain) else super().iter(v)

    def e_for(s, e, env):
        it = s.iter(s.ev(e["e"], env))
        if isinstance(it, Chain):
            def step(x):
                n = Env(env)
                if not s.bind(e["p"], x, n):
                    raise Unsupported("pattern of for")
                s.block(e["b"], n)
            return s.each_of(it, step, [env])
        for x in it.items:
            n = Env(env)
            if not s.bind(e["p"], x, n):
                raise Unsupported("pattern of for")
            try:
                s.block(e["b"], n)
            except Loop as y:
                if y.kind == "break":
                    break
                if y.kind == "return":
                    raise
        it.items = []
        return ()

    def e_while(s, e, env):
        if e["c"]["k"] != "iflet":
            raise Unsupported("while")
        last = None
        for k in range(20):
            prims = {n: v for n, v in env.v.items() if isinstance(v, (str, bool, int)) or v is None}
            if s.heads is not None:
                key = last.id() if last is not None else None
                if s.heads.setdefault(key, prims) != prims:
                    raise Unsupported("the state of the loop depends on more than the last element")
            n = Env(env)
            v = s.ev(e["c"]["e"], n)
            if not s.bind(e["c"]["p"], v, n):
                return ()
            last = v.v if isinstance(v.v, Tok) else Tok("NODE") if isinstance(v.v, tuple) and v.v[:1] == ("nd",) else None
            try:
                s.block(e["b"], n)
            except Loop as x:
                if x.kind == "break":
                    return ()
                if x.kind == "return":
                    raise
        raise Unsupported("a loop that does not end")

    def e_loop(s, e, env):
        if s.heads is not None:
            raise Unsupported("loop")
        for k in range(20):
            try:
                s.block(e["b"], Env(env))
            except Loop as x:
                if x.kind == "break":
                    return x.v if x.v is not None else ()
                if x.kind == "return":
                    raise
        raise Unsupported("a loop that does not end")

    heads = None
    lines = 0

    def each(s, items, step, roots):
        for x in items:
            step(x)

    def edge(s, parts, m, pat):
        """starts_with or ends_with of characters"""
        cs = [pat] if isinstance(pat, tuple) and pat and pat[0] == "char" else pat
        if not isinstance(cs, tuple) and not isinstance(cs, list) or not cs or any(not isinstance(c, tuple) or c[0] != "char" for c in cs):
            return Cond("key", (m, str(pat)) + parts)
        ps = list(parts) if m == "starts_with" else list(parts)[::-1]
        if not ps:
            return False
        if ps[0][0] == "lit":
            c = ps[0][1][0 if m == "starts_with" else -1]
            return any(x[1] == c for x in cs)
        k = (m, str(pat), ps[0])
        if len(ps) == 1:
            return Cond("key", k)
        # an unknown piece of text in front of others: its own edge, unless it is empty
        if s.known(Cond("key", ("empty text", ps[0]))):
            ps = ps[1:]
            return s.edge(tuple(ps if m == "starts_with" else ps[::-1]), m, pat)
        return Cond("key", k)

    def strip(s, r, lit, m):
        x = lit[1]
        ps = list(r.parts)
        j = 0 if m == "strip_prefix" else -1
        if ps and ps[j][0] == "lit":
            t = ps[j][1]
            if (t.startswith(x) if m == "strip_prefix" else t.endswith(x)):
                rest = t[len(x):] if m == "strip_prefix" else t[:-len(x)]
                ps[j:(j + 1) or None] = [("lit", rest)] if rest else []
                return Some(Str(ps))
            if len(t) >= len(x):
                return None
        raise Unsupported("strip")

    def table(s, r, f, default):
        """the kinds for which a predicate holds"""
        return frozenset(t.id() for t in ABS if s.known(s.apply(f, [t])))

    def each_of(s, chain, step, roots):
        """a loop over an unknown sequence: what one step appends, for every kind of element"""
        table = {}
        for t in ABS:
            if s.dropped(chain, t):
                continue
            cells = s.reach(roots + s.extra)
            before = [s.snap(x) for x in cells]
            step(t)
            grown = None
            for x, b in zip(cells, before):
                now = s.snap(x)
                if isinstance(x, Env):
                    if any(now.get(n) is not v and now.get(n) != v for n, v in b.items()):
                        raise Unsupported("a loop with state")
                elif isinstance(x, V):
                    if now != b:
                        if now[:len(b)] != b or grown is not None and grown[0] is not x:
                            raise Unsupported("a loop with state")
                        grown = (x, now[len(b):])
                s.restore(x, b)
            table[t.id()] = s.atoms(V(grown[1])) if grown else []
            if grown:
                s.target = grown[0]
        s.target.items.append(("d", (("each", chain, table),)))
        return ()

    target = None

    def dropped(s, chain, t):
        """the element can't be in the sequence"""
        for m, f in chain.stages:
            if m in ("map_while", "filter_map"):
                v = s.apply(f, [t])
                if v is None:
                    return True
                if not (isinstance(v, Some) and v.v is t):
                    raise Unsupported(m)
            elif m in ("take_while", "filter") and not s.known(s.apply(f, [t])):
                return True
        return False


def paths(prog, f, args, setup=None):
    """(assumptions, result) of every way through a function"""
    todo, out = [{}], []
    while todo:
        asm = todo.pop()
        ev = TEval(prog, asm)
        ev.cur = f["n"]
        if setup:
            setup(ev)
        try:
            a = args(ev) if callable(args) else args
            out.append((asm, ev.run(f, a), ev, a))
        except Fork as x:
            if len(asm) > 12:
                raise Unsupported("too many conditions")
            todo += [dict(asm, **{}) | {x.key: v} for v in (True, False)]
        except Bad as x:
            out.append((asm, x, ev, None))
    return out


COMMENTS = {("LINE_COMMENT", None), ("BLOCK_COMMENT", None)}
WSID = {("WHITESPACE", n) for n in (0, 1, 2)}


def check_trivias(prog, f, args, stable):
    """result == [] only if the gap has no comment; otherwise all comments are printed in order, line breaks stay line breaks"""
    def flat(v):
        if isinstance(v, tuple) and v and v[0] == "leading":
            return v
        if isinstance(v, V):
            return TEval(prog, {}).atoms(v)
        raise Unsupported("result")
    n = 0
    for asm, v, ev, _ in paths(prog, f, args):
        if isinstance(v, Bad):
            return str(v), n
        v = flat(v)
        n += 1
        if isinstance(v, tuple):
            # delegated: the elements after the token
            ch = v[1]
            if ch.start is None or [x[0] for x in ch.stages] != ["skip1"]:
                return "the elements after the node are not what is looked at", n
            continue
        if not v:
            # allowed if everything that is left is white space
            ok = False
            for k, val in asm.items():
                if k[0] == "all" and val and k[1] <= WSID:
                    ok = True
                if k[0] == "any" and not val and COMMENTS <= k[1]:
                    ok = True
            if not ok:
                return "nothing is printed although there may be comments", n
            continue
        each = [a for a in v if a[0] == "each"]
        if len(each) != 1 or any(a[0] not in ("each", "ws") for a in v):
            return f"{len(each)} loops over the trivia" if len(each) != 1 else "something else is printed", n
        _, ch, table = each[0]
        stages = [x for x in ch.stages if x[0] != "skip1"]
        if ch.start is not None and not (ch.stages and ch.stages[0][0] == "skip1"):
            return "the node itself is among the elements", n
        cut = False
        for m, g in stages:
            for t in ABS:
                if m in ("map_while", "take_while"):
                    r = ev.apply(g, [t])
                    keep = r is not None and r is not False
                    if keep and (t.node or t.kind not in TRIVIA + ("ERROR",)):
                        return f"goes on after {t.show()}", n
                    if not keep and t.kind in TRIVIA:
                        return f"stops at {t.show()}", n
                    cut = True
                elif m == "skip_while":
                    if ev.known(ev.apply(g, [t])) and t.id() not in WSID:
                        return f"leaves {t.show()} out", n
                elif m in ("filter", "filter_map"):
                    r = ev.apply(g, [t])
                    if (r is None or r is False) and t.kind in TRIVIA:
                        return f"leaves {t.show()} out", n
        if not cut:
            return "doesn't stop at the next token", n
        out = {}
        for t in ABS:
            if t.node or t.kind not in TRIVIA:
                continue
            got = table.get(t.id(), [])
            if t.kind == "WHITESPACE":
                if any(a[0] != "ws" for a in got):
                    return f"prints more than white space for {t.show()}", n
                if t.nl and not any(a[1] in ("hard_line", "empty_line") for a in got):
                    return f"no line break for {t.show()}", n
                if not got:
                    return f"nothing for {t.show()}", n
                out[t.nl] = [a[1] for a in got]
            else:
                if [a for a in got if a[0] != "ws"] != [a for a in got if a[0] == "comment" and a[1] is t] or sum(a[0] == "comment" for a in got) != 1:
                    return f"{t.show()} isn't printed exactly once", n
        for k, w in out.items() if stable else ():
            if any(x not in ("space", "hard_line", "empty_line") for x in w):
                raise Unsupported("white space that depends on the width")
            breaks = min(2, sum(x != "space" for x in w))
            if breaks in out and out[breaks] != w:
                return f"{k} line breaks become {' '.join(w)} and then {' '.join(out[breaks])}: not stable", n
    return "", n


def check_comment(prog, f, pre, suf):
    def args(ev):
        return [Str([("lit", pre), ("var", "content")] + ([("lit", suf)] if suf else [])), ("ctx",)]
    n = 0
    for asm, v, ev, a in paths(prog, f, args):
        n += 1
        if isinstance(v, Bad):
            return str(v), n
        if not isinstance(v, Doc) or len(v.atoms) != 1 or v.atoms[0][0] != "text":
            raise Unsupported("result")
        x = v.atoms[0][1]
        parts = x.parts if isinstance(x, Str) else None
        if parts is None:
            raise Unsupported("text")
        text = "".join(p[1] if p[0] == "lit" else "\0" for p in parts)
        m = re.match(re.escape(pre) + r"( *)\0( *)" + re.escape(suf) + "$", text)
        if not m:
            return f"the text becomes {text.replace(chr(0), '..')!r}", n
        if not asm.get("format_comments") and (m.group(1) or m.group(2)):
            return "the comment changes although comments are not to be formatted", n
        if not suf and m.group(2):
            return "white space is added at the end of a line comment", n
    return "", n


def check_fixed(prog, f, pre, suf):
    """what the function makes of a comment, it leaves as it is"""
    first = [Str([("lit", pre), ("var", "content")] + ([("lit", suf)] if suf else [])), ("ctx",)]
    n = 0
    for asm, v, ev, a in paths(prog, f, first):
        if isinstance(v, Bad):
            return str(v), n
        x = v.atoms[0][1] if isinstance(v, Doc) and len(v.atoms) == 1 and v.atoms[0][0] == "text" else None
        if not isinstance(x, Str):
            raise Unsupported("result")
        if asm.get(("empty text", ("var", "content"))) and any(k[0] in ("starts_with", "ends_with") and b for k, b in asm.items()):
            continue    # no such text
        for asm2, v2, ev2, a2 in paths(prog, f, [x, ("ctx",)], lambda e: e.assume.update(asm)):
            n += 1
            if isinstance(v2, Bad):
                return str(v2), n
            y = v2.atoms[0][1] if isinstance(v2, Doc) and len(v2.atoms) == 1 and v2.atoms[0][0] == "text" else None
            if not isinstance(y, Str):
                raise Unsupported("result")
            def flat(z):
                return "".join(q[1] if q[0] == "lit" else "\0" for q in z.parts)
            both = {**asm, **asm2}
            if both.get(("empty text", ("var", "content"))) and any(k[0] in ("starts_with", "ends_with") and b for k, b in both.items()):
                continue
            if flat(x) != flat(y):
                return f"the text becomes {flat(x).replace(chr(0), '..')!r} and then {flat(y).replace(chr(0), '..')!r}", n
    return "", n


def check_reflow(prog, f):
    for k in range(5):
        def setup(ev):
            ev.lines = k
        for asm, v, ev, a in paths(prog, f, lambda ev: [Str([("var", "text")]), V()], setup):
            if isinstance(v, Bad):
                return str(v), k
            got = ev.atoms(a[1])
            want = []
            for j in range(k):
                if j:
                    want.append("newline")
                want.append(("line", j))
            now = [("newline" if x[1] in ("hard_line", "empty_line") else x) if x[0] == "ws" else x[1] for x in got]
            blank = [("line", j) for j in range(k) if asm.get(("empty line", j))]
            now, want = ([x for x in q if x not in blank] for q in (now, want))
            if now != want:
                return f"{k} lines of text are not printed line by line", k
            if any(x[0] == "ws" and x[1] == "hard_line" for x in got):
                return "lines are indented", k
    return "", 5


def check_root(prog, f):
    n, heads = 0, {}
    alphabet = ABS[:5] + [Tok("MODULE", None, True)]
    seqs = [()]
    for _ in range(3):
        seqs = seqs + [q + (t,) for q in seqs if len(q) == _ for t in alphabet]
    for q in seqs:
        # a line comment reaches to the end of the line; white space is one token
        if any(a.kind == "LINE_COMMENT" and not (b.kind == "WHITESPACE" and b.nl) or a.kind == b.kind == "WHITESPACE" for a, b in zip(q, q[1:])):
            continue
        els = [Tok(t.kind, t.nl, t.node, j) for j, t in enumerate(q)]

        def setup(ev):
            ev.children, ev.heads = list(els), heads
        for asm, v, ev, a in paths(prog, f, [("root",), ("ctx",)], setup):
            n += 1
            if isinstance(v, Bad):
                return str(v), n
            if not isinstance(v, Doc):
                raise Unsupported("result")
            want = [t for t in els if t.kind != "WHITESPACE"]
            got = [x for x in v.atoms if x[0] != "ws"]
            for w, g in zip(want, got):
                if g[1] is not w or g[0] not in ({"comment"} if not w.node else {"child", "verbatim"}):
                    return f"{w.show()} isn't printed as it is", n
            if len(want) != len(got):
                return f"{len(want)} comments and modules, {len(got)} printed", n
            line = False
            for x in v.atoms:
                if x[0] == "ws":
                    if x[1] in ("hard_line", "empty_line"):
                        line = False
                elif line:
                    return "no line break after a line comment", n
                else:
                    line = x[0] == "comment" and x[1].kind == "LINE_COMMENT"
    return "", n


def check_node(prog, f):
    n, kinds = 0, []
    for k in prog.names:
        prog.kind = k
        for asm, v, ev, a in paths(prog, f, lambda ev: [El(None), ("ctx",)]):
            n += 1
            if isinstance(v, Bad):
                return f"{k}: {v}", n
            if v is None:
                continue
            if not isinstance(v, Some) or not isinstance(v.v, Doc) or v.v.atoms != (("el", None),):
                return f"a node of kind {k} isn't printed as itself", n
            kinds.append(k)
    return "", n


def check_range(prog, f):
    n = 0
    names = [q["p"].get("n") for q in f["i"]]
    tys = [q["ty"] for q in f["i"]]
    args = [("root",) if "Root" in t else ("requested",) if "TextRange" in t else ("options",) if "FormatOptions" in t else ("opaque",) for t in tys]
    for asm, v, ev, a in paths(prog, f, args):
        n += 1
        if isinstance(v, Bad):
            return str(v), n
        if v is None:
            if not any(k[0] == "format_node" and not x for k, x in asm.items()):
                return "no answer although the node can be printed", n
            continue
        if not isinstance(v, Some) or not isinstance(v.v, tuple) or len(v.v) != 2:
            raise Unsupported("result")
        p, r = v.v
        if p[0] != "printed" or not isinstance(p[1], Doc) or r[0] != "range of":
            raise Unsupported("result")
        if p[1].atoms != (("doc of", r[1]),):
            return f"the text is {p[1].atoms}, the range that of {r[1]}", n
    return "", n


def formatter(pid):
    def run(repo, tier):
        p = Program(repo)
        obs, vcs = [], 0

        def guard(what, fn, g):
            try:
                why, k = g()
                obs.append({"name": what, "function": fn, "status": "refuted" if why else "proved", "detail": f"{what}: {why}" if why else "", "vcs": k, "backend": "symbolic execution"})
            except (Unsupported, Split, KeyError, TypeError, AttributeError, IndexError, RecursionError) as x:
                obs.append({"name": what, "function": fn, "status": "unsupported", "detail": str(x), "vcs": 0, "backend": "symbolic execution"})
        plain = {t for t in p.docs if t in p.types and p.types[t]["k"] != "enum"}
        for kind in sorted(p.shapes.defs):
            if kind == "ROOT" or kind not in p.names:
                continue

            def one():
                ts = [t for t in plain if kind in p.accepts(t)]
                if not ts:
                    if kind in ("MODULE_FIELD_FUNC", "MODULE"):
                        return "it has no doc", 0
                    raise Unsupported("no doc")
                p.kind = kind
                r = p.cases(kind, ts[0])
                for c, why in r:
                    if why:
                        return f"for the children {c.show()}: {why}", len(r)
                return "", len(r)
            ts = [t for t in plain if kind in p.accepts(t)] or ["?"]
            guard(f"{ts[0]}::doc ensures every child of the {kind} is printed once and in order, every comment in its gap, tokens apart", f"formatter::{ts[0]}::doc", one)
        for t in sorted(p.docs):
            if t in plain or t == "Root" or t not in p.types:
                continue

            def dispatch():
                n = 0
                for k in sorted(p.accepts(t)):
                    p.kind = k
                    ev = Eval(p, t, Case([], [False]))
                    d = ev.run(p.docs[t], [El(None, t), ("ctx",)])
                    n += 1
                    if not isinstance(d, Doc) or d.atoms != (("el", None),):
                        return f"a node of kind {k} isn't printed as itself", n
                return "", n
            guard(f"{t}::doc ensures result == doc of the member", f"formatter::{t}::doc", dispatch)

        def fn(n):
            return p.helper(n)
        el = Tok("IDENT")
        for n in ("format_trivias_after_node", "format_trivias_after_token"):
            guard(f"{n} ensures result is empty only if no comment follows; otherwise every comment up to the next token is printed once, line breaks stay",
                  f"formatter::{n}", lambda: check_trivias(p, fn(n), [Tok("PLAIN_INSTR", None, True) if n.endswith("node") else el, ("ctx",)], pid == "P14"))
        guard("format_leading_trivias ensures result is empty only if no comment leads; otherwise every leading comment is printed once, line breaks stay",
              "formatter::format_leading_trivias", lambda: check_trivias(p, fn("format_leading_trivias"), [Chain(), ("ctx",)], pid == "P14"))
        guard("format_line_comment requires text starts with `;;`, ensures result is the text up to blanks after `;;`, no panic", "formatter::format_line_comment",
              lambda: check_comment(p, fn("format_line_comment"), ";;", ""))
        guard("format_block_comment requires text in `(;` `;)`, ensures result is the text up to blanks inside, no panic", "formatter::format_block_comment",
              lambda: check_comment(p, fn("format_block_comment"), "(;", ";)"))
        if pid == "P14":
            for n, pre, suf in (("format_line_comment", ";;", ""), ("format_block_comment", "(;", ";)")):
                guard(f"{n} ensures {n}(result) == result", f"formatter::{n}", lambda: check_fixed(p, fn(n), pre, suf))
        guard("reflow ensures the lines of the text are printed as they are", "formatter::reflow", lambda: check_reflow(p, fn("reflow")))
        guard("Root::doc ensures every module and comment is printed once and in order, line comments end their line", "formatter::Root::doc", lambda: check_root(p, p.docs["Root"]))
        guard("lemma: the text of comment tokens starts with `;;` or stands in `(;` `;)`", "parser::line_comment", lambda: comment_texts(p))
        if pid == "P15":
            guard("format_node ensures result is None or the node's doc", "formatter::format_node", lambda: check_node(p, fn("format_node")))
            guard("format_range ensures result is None or (text of a node that covers the range, range of that node)", "formatter::format_range", lambda: check_range(p, fn("format_range")))
        return {"obligations": obs, "trusted": TRUSTED, "assumptions": ASSUME, "back_ends": {"symbolic execution": sum(o["vcs"] for o in obs)}, "solver_s": 0.0, "probes": [], "complete": False}
    run.__name__ = f"formatter_{pid}"
    return run


def comment_texts(p):
    """shapes.py: what the text of a comment token starts and ends with, wherever it is made"""
    n = 0
    for kind, pre, suf in (("LINE_COMMENT", ";;", ""), ("BLOCK_COMMENT", "(;", ";)")):
        got = p.shapes.fixes.get(kind)
        if not got:
            raise Unsupported(f"no function makes a {kind}")
        for a, b in got:
            n += 1
            if not a and pre or not b and suf:
                raise Unsupported(f"the text of a {kind}")
            if not a.startswith(pre) or not b.endswith(suf):
                return f"a {kind} with the text {a}..{b}", n
    return "", n


TRUSTED = ["deduct/d_format.py, shapes.py, parsev.py and astdump", "tiny_pretty prints texts in order, white space for space, line and empty_line, and nothing for nest and group",
           "rowan: siblings, children, kinds and texts; child_or_token_at_range gives a child that covers the range"]
ASSUME = ["documents without syntax errors, closed strings, no stray `)` (known finding of P03)",
          "a line comment is followed by a line break or the end of the text (lexer)",
          "should_ignore may answer anything"]
