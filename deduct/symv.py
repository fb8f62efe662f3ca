"""Functional contracts: `ensures result == spec`, decided by symbolic evaluation of the real function and of the contract.

Values are terms of one uninterpreted sort U (with booleans and integers of their own), records, options, tuples and
lists in a normal form:  list = segments;  segment = Item v | For x in source: list | Case [(condition, list)].
Control flow forks paths; conditions are discharged by z3. `find`, `next`, `any` introduce a witness which is shared
by all searches that are proved to be over the same source with equivalent conditions. Functions under contract are
opaque to their callers; other functions of the crate are inlined.
"""
import itertools
import re, time
import z3
from .src import functions, load, walk, Unsupported, sub

U = z3.DeclareSort("U")
B, I = z3.BoolSort(), z3.IntSort()


class Op:
    __slots__ = ("t", "ty")

    def __init__(s, t, ty=None):
        s.t, s.ty = t, ty

    def __repr__(s):
        return f"{s.t}"


class Con:
    def __init__(s, n, *a):
        s.n, s.a = n, a

    def __repr__(s):
        return f"{s.n}{list(s.a) if s.a else ''}"


class Tup:
    def __init__(s, e):
        s.e = list(e)

    def __repr__(s):
        return f"({', '.join(map(str, s.e))})"


class Rec:
    def __init__(s, n, f):
        s.n, s.f = n, f

    def __repr__(s):
        return f"{s.n}{s.f}"


class Item:
    def __init__(s, v):
        s.v = v

    def __repr__(s):
        return f"{s.v}"


class Ch(Item):
    """a piece of a string"""


class For:
    def __init__(s, var, src, body, carry=()):
        s.var, s.src, s.body, s.carry = var, src, body, tuple(carry)     # carry: (constant, initial, [(cond, next)])

    def __repr__(s):
        return f"for {s.var} in {s.src}: {s.body}"


class Case:
    def __init__(s, cs):
        s.cs = cs       # [(cond, Lst)] exclusive

    def __repr__(s):
        return "case " + "; ".join(f"{c}: {l}" for c, l in s.cs)


class Splice:
    """what a function under contract appended to the list it was given"""
    def __init__(s, v):
        s.v = v

    def __repr__(s):
        return f"..{s.v}"


class Mark:
    """the list is the sequence of insertions into a map"""
    def __repr__(s):
        return "map"


MARK = Mark()


def is_map(l):
    return isinstance(l, Lst) and bool(l.segs) and (l.segs[0] is MARK or isinstance(l.segs[0], Splice) and isinstance(l.segs[0].v, Op) and l.segs[0].v.ty == "HashMap")


def at_most_one(l):
    """no path inserts twice"""
    g = [x for x in l.segs if x is not MARK]
    return not g or len(g) == 1 and (isinstance(g[0], Item) or isinstance(g[0], Case) and all(at_most_one(m) for _, m in g[0].cs))


class Lst:
    def __init__(s, segs=()):
        s.segs = tuple(segs)

    def __repr__(s):
        return "[" + ", ".join(map(str, s.segs)) + "]"


class Clo:
    def __init__(s, ps, body, env):
        s.ps, s.body, s.env = ps, body, env


class TClo(Clo):
    def __init__(s, f, ty):
        Clo.__init__(s, f.ps, f.body, f.env)
        s.ty = ty


class Fn:
    def __init__(s, n):
        s.n = n


class Ref:
    def __init__(s, cell):
        s.cell = cell


class Ctl:
    def __init__(s, k, v=None):
        s.k, s.v = k, v


class Unit:
    def __repr__(s):
        return "()"


UNIT = Unit()
NONE = Con("None")


INTERNAL = {"tag", "variant", "is_some", "is_ok", "payload", "error", "Some", "Ok", "Err", "nonempty", "first", "after_loop", "U2B", "U2I", "default", "tail", "position_of", "len", "last_of", "#0", "#1", "#2", "op+", "op-"}


class S:
    __slots__ = ("pc", "store")

    def __init__(s, pc=(), store=None):
        s.pc, s.store = pc, store or {}

    def cp(s):
        return S(s.pc, dict(s.store))

    def assume(s, c):
        return S(s.pc + (c,), dict(s.store))


ITER_TY = re.compile(r"^(Vec|AstChildren|SmallVec|SyntaxNodeChildren|VecDeque|HashSet|FxHashSet|HashMap|FxHashMap|Box<\[|\[)|^impl(Iterator|IntoIterator|DoubleEndedIterator)|^dynIterator")
NODES, TOKS, ELEMS = "implIterator<Item=SyntaxNode>", "implIterator<Item=SyntaxToken>", "implIterator<Item=SyntaxElement>"
BUILTIN = {"format_range": "Option<(String,TextRange)>",
    **{n: NODES for n in "children descendants ancestors siblings parent_ancestors".split()},
    **{n: ELEMS for n in "children_with_tokens descendants_with_tokens siblings_with_tokens".split()},
    **{n: "implIterator" for n in "chars lines bytes char_indices keys values drain iter iter_mut into_iter split split_whitespace preorder values_mut matches".split()},
    **{n: "Option<SyntaxNode>" for n in "parent first_child last_child next_sibling prev_sibling into_node as_node child first_child_by_kind".split()},
    **{n: "Option<SyntaxToken>" for n in "first_token last_token next_token prev_token into_token as_token token left_biased right_biased".split()},
    **{n: "Option<SyntaxElement>" for n in "first_child_or_token last_child_or_token next_sibling_or_token prev_sibling_or_token first_child_or_token_by_kind".split()},
    **{n: "Option" for n in "strip_prefix strip_suffix checked_sub checked_add intersect cast get to_wide to_utf8 try_line_col offset line num pop split_once next_back remove".split()},
    **{n: "bool" for n in "is_empty contains starts_with ends_with contains_range contains_inclusive is_trivia is_punct eq is_alphanumeric contains_key eq_ignore_ascii_case can_cast".split()},
    **{n: "Result" for n in "try_into parse".split()},
    "get_index_of": "Option<usize>",
    **{n: "usize" for n in "len count".split()},
    **{n: "SyntaxKind" for n in "kind".split()},
    **{n: "TextRange" for n in "text_range".split()},
    **{n: "SyntaxNode" for n in "syntax clone_for_update clone_subtree".split()},
    **{n: "str" for n in "text trim trim_end trim_start trim_start_matches trim_end_matches to_lowercase to_ascii_lowercase".split()},
}
LSP = {
    "Range": {"start": "Position", "end": "Position"}, "Position": {"line": "u32", "character": "u32"},
    "Location": {"uri": "Uri", "range": "Range"},
    "TextDocumentPositionParams": {"text_document": "TextDocumentIdentifier", "position": "Position"},
    "TextDocumentIdentifier": {"uri": "Uri"}, "LineCol": {"line": "u32", "col": "u32"}, "WideLineCol": {"line": "u32", "col": "u32"},
    "ReferenceContext": {"include_declaration": "bool"}, "CallHierarchyItem": {"range": "Range", "selection_range": "Range", "uri": "Uri", "name": "String"},
    "CallHierarchyIncomingCallsParams": {"item": "CallHierarchyItem"}, "CallHierarchyOutgoingCallsParams": {"item": "CallHierarchyItem"},
    "SelectionRangeParams": {"positions": "Vec<Position>", "text_document": "TextDocumentIdentifier"},
    "RenameParams": {"new_name": "String", "text_document_position": "TextDocumentPositionParams"},
    "ReferenceParams": {"context": "ReferenceContext", "text_document_position": "TextDocumentPositionParams"},
    "InlayHintParams": {"range": "Range", "text_document": "TextDocumentIdentifier"},
    "SemanticTokensRangeParams": {"range": "Range", "text_document": "TextDocumentIdentifier"},
    "DocumentRangeFormattingParams": {"range": "Range", "text_document": "TextDocumentIdentifier"},
    "CodeActionParams": {"range": "Range", "text_document": "TextDocumentIdentifier", "context": "CodeActionContext"},
    "GotoDefinitionParams": {"text_document_position_params": "TextDocumentPositionParams"}, "HoverParams": {"text_document_position_params": "TextDocumentPositionParams"},
    "CallHierarchyPrepareParams": {"text_document_position_params": "TextDocumentPositionParams"},
    "CodeActionContext": {"only": "Option<Vec<CodeActionKind>>"},
    "CompletionParams": {"text_document_position": "TextDocumentPositionParams"},
}
NEW = {"Position": ("line", "character"), "Range": ("start", "end"), "Location": ("uri", "range"), "TextEdit": ("range", "new_text"),
       "PublishDiagnosticsParams": ("uri", "diagnostics", "version")}  # constructors of lsp_types
IDENT_M = {"clone", "to_owned", "as_ref", "as_mut", "as_str", "to_string", "cloned", "copied", "borrow", "as_deref", "into_owned", "by_ref", "to_vec", "as_slice", "deref", "into_boxed_str", "collect_vec", "fuse", "peekable"}
OPT_M = {"map", "and_then", "is_some", "is_none", "is_some_and", "is_none_or", "unwrap_or_default", "unwrap_or", "unwrap_or_else", "or_else", "or", "ok_or_else", "ok_or", "filter",
         "zip", "unwrap", "expect", "flatten", "iter", "into_iter", "map_or", "map_or_else", "then", "and", "ok", "map_err", "is_ok", "is_err", "unwrap_err"}


ALIAS = {}


def resolve_self(f, owner):
    """`Self::Variant` by the name of the type"""
    owner = re.sub(r"<.*", "", owner)
    if owner and f.get("b"):
        for x in sub(f["b"]):
            q = x.get("p")
            if isinstance(q, str) and q.startswith("Self::") and q[6:7].isupper():
                x["p"] = owner + q[4:]


def norm_ty(t):
    if t is None:
        return None
    t = t.replace(" ", "")
    t = re.sub(r"'\w+", "", t).replace("<>", "").replace("+_", "").replace("+,", "")
    while t[:1] == "&" or t.startswith("mut"):
        t = t[1:] if t[:1] == "&" else t[3:]
    t = ALIAS.get(t, t)
    if t == "_":
        return None
    if t.startswith("Rc<") or t.startswith("Arc<") or t.startswith("Box<") and not t.startswith("Box<["):
        return norm_ty(t[t.index("<") + 1:-1])
    return t


def cat(ty):
    if not ty:
        return None
    if ty.startswith("Option") or ty.startswith("std::option::Option"):
        return "opt"
    if ty.startswith("Result") or ty.startswith("anyhow::Result"):
        return "res"
    if ITER_TY.match(ty):
        return "iter"
    if ty == "bool":
        return "bool"
    if ty in ("u32", "usize", "u8", "u16", "i32", "u64", "i64", "isize"):
        return "int"
    if ty in ("str", "String"):
        return "str"
    return None


def inner(ty):
    """T of Option<T>, Vec<T>, Iterator<Item=T>"""
    if not ty or "<" not in ty:
        return None
    x = ty[ty.index("<") + 1:ty.rindex(">")]
    if x.startswith("Item="):
        x = x[5:]
    if x.startswith("[") and ";" in x:
        x = x[1:x.rindex(";")]
    depth = 0
    for i, c in enumerate(x):
        if c in "<([":
            depth += 1
        elif c in ">)]":
            depth -= 1
        elif c == "," and depth == 0:
            return norm_ty(x[:i])
    return norm_ty(x)


class Engine:
    def __init__(s, timeout=3000):
        s.so = z3.Solver()
        s.timeout = timeout
        s.so.set("timeout", timeout)
        s.n = 0
        s.consts, s.funs = {}, {}
        s.lits = 0
        s.reg = []          # (kind, Lst, free variables, payload)
        s.fv = {}
        s.wit, s.inst, s.scanned, s.keep = {}, set(), set(), []
        s.lists, s.busy = {}, False
        s.doms = set()
        s.cache = {}
        s.queries, s.time = 0, 0.0
        s.variants = {}
        s.vcs = 0
        s.deadline, s.unknown = None, False
        s.vocab = set()
        s.quiet = 0
        s.axiom(z3.Not(s.b("is_some", s.const("None").t)))

    def reset(s):
        """forget the lists and axioms of the last function"""
        s.so = z3.Solver()
        s.so.set("timeout", s.timeout)
        s.reg, s.fv, s.cache, s.funs, s.consts, s.lits = [], {}, {}, {}, {}, 0
        s.wit, s.inst, s.scanned, s.keep = {}, set(), set(), []
        s.lists, s.busy = {}, False
        s.doms = set()
        s.unknown = False
        s.axiom(z3.Not(s.b("is_some", s.const("None").t)))

    def axiom(s, a):
        s.so.add(a)
        s.cache.clear()

    def fresh(s, name="x", ty=None, sort=U):
        s.n += 1
        return z3.Const(f"{name}!{s.n}", sort)

    def const(s, name, ty=None):
        """distinct constants: literals and enum values"""
        if name not in s.consts:
            t = z3.Const("'" + name, U)
            s.consts[name] = t
            s.lits += 1
            s.axiom(s.f("tag", 1, I)(t) == s.lits)
        return Op(s.consts[name], ty)

    def f(s, name, n, sort=U):
        k = (name, n, str(sort))
        s.vocab.add(name)
        if k not in s.funs:
            s.funs[k] = z3.Function(f"{name}", *([U] * n), sort)
        return s.funs[k]

    def app(s, name, *args, ty=None):
        if name in ("text_range", "kind") and len(args) == 1 and z3.is_app(args[0]) and args[0].decl().name() == "to_node":
            # a pointer resolves to the node of its range and kind
            args = (args[0].arg(0),)
        if name in ("text_range", "kind") and len(args) == 1 and z3.is_app(args[0]) and args[0].decl().name() == "payload" and \
                args[0].arg(0).decl().name() in ("into_node", "into_token"):
            # an element has the kind and range of its node or token
            args = (args[0].arg(0).arg(0),)
        t = s.f(name, len(args))(*args) if args else z3.Const(name, U)
        return Op(t, ty)

    def b(s, name, *args):
        if name == "is_some" and z3.is_app(args[0]) and args[0].decl().name() == "into_node":
            return z3.Not(s.b("is_some", s.app("into_token", args[0].arg(0)).t))
        return s.f(name, len(args), B)(*args)

    # sorts
    def u2b(s, t):
        if z3.is_app(t) and t.decl().name() == "B2U":
            return t.arg(0)
        return s.f("U2B", 1, B)(t)

    def b2u(s, b):
        if z3.is_app(b) and b.decl().name() == "U2B":
            return b.arg(0)
        k = ("B2U", 1, "b")
        if k not in s.funs:
            s.funs[k] = z3.Function("B2U", B, U)
        return s.funs[k](b)

    def u2i(s, t):
        if z3.is_app(t) and t.decl().name() == "I2U":
            return t.arg(0)
        return s.f("U2I", 1, I)(t)

    def i2u(s, i):
        if z3.is_app(i) and i.decl().name() == "U2I":
            return i.arg(0)
        k = ("I2U", 1, "i")
        if k not in s.funs:
            s.funs[k] = z3.Function("I2U", I, U)
        t = s.funs[k](i)
        return t

    # ---- queries
    def sat(s, conds):
        cs = [c for c in conds if not z3.is_true(c)]
        key = frozenset(c.get_id() for c in cs)
        if key in s.cache:
            return s.cache[key][0]
        t = time.time()
        if s.deadline and t > s.deadline:
            raise Unsupported("out of time")
        for c in cs:
            s.instances(c)
        s.so.push()
        for c in cs:
            s.so.add(c)
        r = s.so.check()
        if r == z3.unknown:
            s.unknown = True
        s.so.pop()
        s.time += time.time() - t
        s.queries += 1
        s.cache[key] = (r != z3.unsat, cs)
        return r != z3.unsat

    def instances(s, c):
        """the defining property of every witness that depends on loop variables, at the terms it is applied to"""
        stack = [c]
        while stack:
            y = stack.pop()
            if y.get_id() in s.scanned:
                continue
            s.scanned.add(y.get_id())
            s.keep.append(y)
            if z3.is_eq(y) and y.arg(0).sort() == U:
                for c, x in ((y.arg(0), y.arg(1)), (y.arg(1), y.arg(0))):
                    n = c.decl().name() if z3.is_const(c) else ""
                    if n[:1] == "'" and len(s.variants.get(n[1:], ())) == 1 and not (z3.is_const(x) and x.decl().name()[:1] == "'"):
                        k = (x.get_id(), id(s.variants[n[1:]][0]))
                        if k not in s.doms:
                            s.doms.add(k)
                            s.keep.append(x)
                            s.so.add(z3.Or([x == s.const(v).t for v in s.variants[n[1:]][0]]))
            if z3.is_app(y) and y.num_args() and y.decl().name() in s.wit:
                fv, ax = s.wit[y.decl().name()]
                k = (ax.get_id(), tuple(a.get_id() for a in y.children()))
                if k not in s.inst:
                    s.inst.add(k)
                    i = z3.substitute(ax, *zip(fv, y.children()))
                    s.so.add(i)
                    stack.append(i)
            if z3.is_app(y) and y.num_args() and y.decl().name() in s.lists and not s.busy:
                kind, l0, f0, p = s.lists[y.decl().name()]
                k = ("same", y.decl().name(), tuple(a.get_id() for a in y.children()))
                if k not in s.inst and any(not a.eq(b) for a, b in zip(f0, y.children())):
                    s.inst.add(k)
                    s.busy = True
                    try:
                        q = s.same_payload(kind, s.subst(l0, list(zip(f0, y.children()))), y.decl().name())
                    finally:
                        s.busy = False
                    if q is not None:
                        mine = p(*y.children())
                        for a, b in zip(mine if isinstance(mine, tuple) else (mine,), q if isinstance(q, tuple) else (q,)):
                            a, b = (a.t if isinstance(a, Op) else a), (b.t if isinstance(b, Op) else b)
                            s.so.add(a == b)
                            stack += [a, b]
            stack += y.children()

    def valid(s, conds, c):
        return not s.sat(list(conds) + [z3.Not(c)])

    # ---- conversion
    def defaulted(s, v):
        d = v.f.get("..")
        return isinstance(d, Op) and d.t.eq(s.app("default").t)

    def variant(s, t, name):
        """t is of that variant of its enum"""
        return s.f("variant", 1)(t) == s.const(name.split("::")[-1]).t

    def to_u(s, v):
        if isinstance(v, Op):
            return v.t
        if isinstance(v, bool):
            return s.b2u(z3.BoolVal(v))
        if z3.is_expr(v):
            if v.sort() == B:
                return s.b2u(v)
            if v.sort() == I:
                return s.i2u(v)
            return v
        if isinstance(v, Con):
            if v.n == "None":
                return s.const("None").t
            a = s.to_u(v.a[0])
            # Some(payload(t)) where t is known to be Some is t itself: kept as a term, the axioms relate them
            t = s.f(v.n, 1)(a)
            if v.n == "Some":
                s.axiom(z3.And(s.b("is_some", t), s.f("payload", 1)(t) == a))
            elif v.n == "Ok":
                s.axiom(z3.And(s.b("is_ok", t), s.f("payload", 1)(t) == a))
            elif v.n == "Err":
                s.axiom(z3.And(z3.Not(s.b("is_ok", t)), s.f("error", 1)(t) == a))
            else:
                s.axiom(s.variant(t, v.n))
            return t
        if isinstance(v, Tup):
            return s.f(f"tuple{len(v.e)}", len(v.e))(*[s.to_u(x) for x in v.e])
        if isinstance(v, Rec):
            ks = sorted(k for k in v.f if not (s.defaulted(v) and isinstance(v.f[k], Con) and v.f[k].n == "None"))
            return s.f(f"{v.n}{{{','.join(ks)}}}", len(ks))(*[s.to_u(v.f[k]) for k in ks]) if ks else s.const(v.n).t
        if isinstance(v, Lst):
            return s.reg_list(v).t
        if v is UNIT:
            return s.const("()").t
        if isinstance(v, Fn):
            return s.const("fn:" + v.n).t
        raise Unsupported(f"{type(v).__name__} as a term")

    def sig(s, l):
        out = []
        for g in l.segs:
            if isinstance(g, Item):
                out.append("i")
            elif isinstance(g, For):
                out.append("f")
            elif isinstance(g, Case):
                out.append("c")
            else:
                out.append("s")
        return len([x for x in out if x == "f"])

    def free(s, v, bound=()):
        """loop variables and carried state a value depends on, in order of introduction"""
        out = {}

        def term(x):
            i = x.get_id()
            if i not in s.fv:
                r, seen, stack = {}, set(), [x]
                while stack:
                    y = stack.pop()
                    if y.get_id() in seen:
                        continue
                    seen.add(y.get_id())
                    if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        n = y.decl().name()
                        if n.startswith(("e!", "carry!", "stop!")):
                            r[n] = y
                    stack += y.children()
                s.fv[i] = (x, r)
            for n, y in s.fv[i][1].items():
                if n not in bound:
                    out[n] = y

        def go(v, bound):
            if isinstance(v, Op):
                term2(v.t, bound)
            elif z3.is_expr(v):
                term2(v, bound)
            elif isinstance(v, Con):
                [go(x, bound) for x in v.a]
            elif isinstance(v, Tup):
                [go(x, bound) for x in v.e]
            elif isinstance(v, Rec):
                [go(x, bound) for x in v.f.values()]
            elif isinstance(v, Lst):
                [go(x, bound) for x in v.segs]
            elif isinstance(v, (Item, Splice)):
                go(v.v, bound)
            elif isinstance(v, Case):
                for c, l in v.cs:
                    term2(c, bound)
                    go(l, bound)
            elif isinstance(v, For):
                go(v.src, bound)
                b2 = bound | {v.var.t.decl().name()} | {(c.t if isinstance(c, Op) else c).decl().name() for c, _, _ in v.carry}
                go(v.body, b2)
                for _, i, nx in v.carry:
                    go(i, bound)
                    for g, n in nx:
                        term2(g, b2)
                        go(n, b2)

        def term2(x, bound):
            before = dict(out)
            out.clear()
            term(x)
            new = {n: y for n, y in out.items() if n not in bound}
            out.clear()
            out.update(before)
            out.update(new)

        go(v, frozenset(bound))
        return [out[n] for n in sorted(out, key=lambda n: int(n.split("!")[1]))]

    def diff(s, a, b):
        return "differs" if s.quiet else f"{str(a)[:300]} is not {str(b)[:300]}"

    def lookup(s, kind, l, mk):
        s.quiet += 1
        try:
            return s.lookup_(kind, l, mk)
        finally:
            s.quiet -= 1

    def lookup_(s, kind, l, mk):
        """the payload of an equal list met before (as a function of the loop variables it depends on), or a new one"""
        fv = s.free(l)
        for k, l0, f0, p in s.reg:
            if k == kind and len(f0) == len(fv):
                perms = itertools.permutations(fv) if len(fv) in (2, 3) else [fv]
                for q in perms:
                    if any(not x.sort().eq(y.sort()) for x, y in zip(f0, q)):
                        continue
                    m = list(zip(f0, q))
                    try:
                        same = s.eq_lists(s.subst(l0, m) if m else l0, l, ()) is None
                    except Unsupported:
                        same = False
                    if same:
                        return p(*q)
        p = mk(fv)
        s.reg.append((kind, l, fv, p))
        for f in s.payload_funs(p(*fv)):
            s.lists[f] = (kind, l, fv, p)
        return p(*fv)

    def payload_funs(s, p):
        for x in p if isinstance(p, tuple) else (p,):
            yield (x.t if isinstance(x, Op) else x).decl().name()

    def same_payload(s, kind, l, fn):
        """an equal list registered under another function symbol"""
        fv = s.free(l)
        for k, l0, f0, p in s.reg:
            if k != kind or len(f0) != len(fv) or fn in s.payload_funs(p(*f0)):
                continue
            if any(not x.sort().eq(y.sort()) for x, y in zip(f0, fv)):
                continue
            m = list(zip(f0, fv))
            try:
                if s.eq_lists(s.subst(l0, m) if m else l0, l, ()) is None:
                    return p(*fv)
            except Unsupported:
                pass
        return None

    def reg_list(s, l):
        l = Lst([g for g in l.segs if g is not MARK])
        if len(l.segs) == 1 and isinstance(l.segs[0], For):
            f = l.segs[0]
            if not f.carry and len(f.body.segs) == 1 and isinstance(f.body.segs[0], Item) and isinstance(f.body.segs[0].v, Op) and f.body.segs[0].v.t.eq(f.var.t):
                return f.src
        if not l.segs:
            return s.const("[]")
        if any(isinstance(g, Ch) for g in l.segs):
            l = Lst(s.glue(l.segs))
            if len(l.segs) == 1:
                return l.segs[0].v
        if len(l.segs) == 1 and isinstance(l.segs[0], Splice) and isinstance(l.segs[0].v, Op):
            return l.segs[0].v
        def mk(fv):
            f = s.fun("list", fv)
            return lambda *q: Op(f(*q))
        return s.lookup("list", l, mk)

    def fun(s, name, fv, sort=None):
        s.n += 1
        n = f"{name}!{s.n}"
        if not fv:
            c = z3.Const(n, U if sort is None else sort)
            return lambda: c
        return z3.Function(n, *[x.sort() for x in fv], U if sort is None else sort)

    def relate(s, pc):
        """lists and searches in pc that are the same under pc: equations between them"""
        occ, stack, seen = [], list(pc), set()
        while stack:
            y = stack.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_app(y) and y.decl().name() in s.lists:
                occ.append(y)
            stack += y.children()
        out, done = [], set()
        if len(occ) > 40:
            return ()
        for i, x in enumerate(occ):
            for y in occ[:i]:
                a, b = s.lists[x.decl().name()], s.lists[y.decl().name()]
                k = (min(x.decl().name(), y.decl().name()), max(x.decl().name(), y.decl().name()))
                if a[0] != b[0] or a is b or x.sort() != y.sort() or (k in done and not x.num_args()):
                    continue
                done.add(k)
                la, lb = [s.subst(l, list(zip(f, z.children()))) if f else l for (_, l, f, _), z in ((a, x), (b, y))]
                try:
                    if s.eq_lists(la, lb, tuple(pc) + tuple(out)) is not None:
                        continue
                except Unsupported:
                    continue
                p, q = [r[3](*z.children()) for r, z in ((a, x), (b, y))]
                for u, v in zip(p if isinstance(p, tuple) else (p,), q if isinstance(q, tuple) else (q,)):
                    out.append((u.t if isinstance(u, Op) else u) == (v.t if isinstance(v, Op) else v))
        return tuple(out)

    # ---- strings
    def text(s, v):
        """the text of a literal piece, or None"""
        if isinstance(v, Op) and z3.is_const(v.t):
            n = v.t.decl().name()
            if n[:3] in ("'s:", "'c:"):
                return n[3:]
            if n == "'[]":
                return ""
        return None

    def strlist(s, l):
        return isinstance(l, Lst) and any(isinstance(x, Ch) or isinstance(x, For) and s.strlist(x.body) for _, x in s.flat(l))

    def is_str(s, v):
        return isinstance(v, Op) and (cat(v.ty) == "str" or v.ty == "char" or s.text(v) is not None)

    def is_default(s, v):
        return isinstance(v, Op) and v.t.eq(s.app("default").t)

    def chunks(s, v):
        """the pieces of a printed value"""
        if s.is_default(v):
            return ()
        if isinstance(v, Lst) and (s.strlist(v) or not v.segs):
            return v.segs
        if isinstance(v, Op):
            t = s.text(v)
            if t is not None:
                return (Ch(s.const("s:" + t, "str")),) if t else ()
            if v.t.decl().name() in s.lists and not v.t.num_args():
                l = s.lists[v.t.decl().name()][1]
                if s.lists[v.t.decl().name()][0] == "list" and s.strlist(l):
                    return l.segs
            return (Ch(v),)
        return (Ch(Op(s.to_u(v))),)

    def glue(s, segs):
        out = []
        for g in segs:
            if isinstance(g, Ch) and out and isinstance(out[-1], Ch):
                a, b = s.text(out[-1].v), s.text(g.v)
                if a is not None and b is not None:
                    out[-1] = Ch(s.const("s:" + a + b, "str"))
                    continue
            out.append(g)
        return tuple(out)

    # ---- comparison: None or a reason
    def eq_vals(s, a, b, pc):
        if isinstance(a, bool):
            a = z3.BoolVal(a)
        if isinstance(b, bool):
            b = z3.BoolVal(b)
        if isinstance(a, Con) and isinstance(b, Con):
            if a.n != b.n or len(a.a) != len(b.a):
                return s.diff(a, b)
            for x, y in zip(a.a, b.a):
                r = s.eq_vals(x, y, pc)
                if r:
                    return r
            return None
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.e) == len(b.e):
            for x, y in zip(a.e, b.e):
                r = s.eq_vals(x, y, pc)
                if r:
                    return r
            return None
        if isinstance(a, Rec) and isinstance(b, Rec):
            fa, fb = a.f, b.f
            if s.defaulted(a) and s.defaulted(b):
                # a field left to Default::default() that is None where it is written
                fa = {**{k: NONE for k in fb}, **fa}
                fb = {**{k: NONE for k in fa}, **fb}
            if a.n.split("::")[-1] != b.n.split("::")[-1] or set(fa) != set(fb):
                return f"{a.n} {sorted(a.f)} is not {b.n} {sorted(b.f)}"
            for k in sorted(fa):
                r = s.eq_vals(fa[k], fb[k], pc)
                if r:
                    return why(f"field {k}: ", r)
            return None
        if isinstance(a, Lst) and isinstance(b, Lst):
            r = s.eq_lists(a, b, pc)
            # the same map may be built by other insertions
            return why("~", r) if r and not r.startswith("~") and (is_map(a) or is_map(b)) and not (at_most_one(a) and at_most_one(b)) else r
        if isinstance(a, Lst) or isinstance(b, Lst):
            # the default of a sequence is the empty one
            a, b = (Lst() if s.is_default(x) else x for x in (a, b))
            if isinstance(a, Lst) and isinstance(b, Lst):
                return s.eq_lists(a, b, pc)
            # an opaque sequence is the list of its elements
            if s.is_str(a) or s.is_str(b) or s.strlist(a) or s.strlist(b):
                a, b = Lst(s.chunks(a)), Lst(s.chunks(b))
                return s.eq_lists(a, b, pc)
            if isinstance(a, Op):
                a = s.as_list(a)
            if isinstance(b, Op):
                b = s.as_list(b)
            if isinstance(a, Lst) and isinstance(b, Lst):
                return s.eq_lists(a, b, pc)
        if a is UNIT and b is UNIT:
            return None
        if isinstance(a, Clo) and isinstance(b, Clo):
            raise Unsupported("comparison of closures")
        if isinstance(a, Con) and isinstance(b, Op) or isinstance(a, Op) and isinstance(b, Con):
            c, o = (a, b) if isinstance(a, Con) else (b, a)
            if c.n in ("Some", "None", "Ok", "Err"):
                p = s.b("is_some" if c.n in ("Some", "None") else "is_ok", o.t)
                if not s.valid(pc, p if c.n in ("Some", "Ok") else z3.Not(p)):
                    return s.diff(a, b)
                if c.n == "None":
                    return None
                return s.eq_vals(c.a[0], s.app("payload" if c.n != "Err" else "error", o.t), pc)
        if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
            s.vcs += 1
            return None if s.valid(pc, a == b) else s.diff(a, b)
        ua, ub = s.to_u(a), s.to_u(b)
        s.vcs += 1
        return None if s.eq_terms(ua, ub, pc) else s.diff(a, b)

    def eq_terms(s, a, b, pc):
        if a.eq(b) or s.valid(pc, a == b):
            return True
        if z3.is_app(a) and z3.is_app(b):
            na, nb = a.decl().name(), b.decl().name()
            ln = [n in s.lists and s.lists[n][0] == "list" for n in (na, nb)]
            if a.sort().eq(U) and b.sort().eq(U) and (ln[0] and ln[1] or any(ln) and (s.text(Op(a)) is not None or s.text(Op(b)) is not None)):
                la, lb = [(s.subst(s.lists[n][1], list(zip(s.lists[n][2], x.children()))) if x.num_args() else s.lists[n][1]) if is_l else Lst(s.chunks(Op(x)))
                          for n, x, is_l in ((na, a, ln[0]), (nb, b, ln[1]))]
                return s.eq_lists(la, lb, pc) is None
            if na == nb and a.num_args() == b.num_args() > 0 and a.decl().eq(b.decl()):
                return all(s.eq_terms(x, y, pc) for x, y in zip(a.children(), b.children()))
        return False

    def flat(s, l, g=()):
        """[(guard conjuncts, Item | For | Splice)]"""
        out = []
        for x in l.segs:
            if isinstance(x, Case):
                for c, m in x.cs:
                    out += s.flat(m, g + (c,))
            elif x is not MARK:
                out.append((g, x))
        return out

    def inserts(s, l):
        """a map collected from pairs: the insertions of the pairs in their order"""
        out = []
        for x in l.segs:
            if isinstance(x, Case):
                x = Case([(c, s.inserts(m)) for c, m in x.cs])
            elif isinstance(x, For) and not x.carry:
                x = For(x.var, x.src, s.inserts(x.body))
            elif isinstance(x, Item) and isinstance(x.v, Tup) and len(x.v.e) == 2:
                x = Item(Tup([s.const("insert"), *x.v.e]))
            out.append(x)
        return Lst(out)

    def eq_lists(s, a, b, pc):
        if is_map(a) != is_map(b):
            if not is_map(a):
                a = s.inserts(a)
            else:
                b = s.inserts(b)
        budget = [600]
        return s.eq_atoms(s.flat(a), s.flat(b), list(pc), budget)

    def eq_atoms(s, a, b, pc, budget):
        budget[0] -= 1
        if budget[0] < 0:
            raise Unsupported("too many cases in a comparison of lists")
        a, b = list(a), list(b)
        while True:
            # heads that are certain
            while a and a[0][0] and not s.sat(pc + list(a[0][0])):
                a.pop(0)
            while b and b[0][0] and not s.sat(pc + list(b[0][0])):
                b.pop(0)
            if not a and not b:
                return None
            for h in (a, b):
                if h and h[0][0]:
                    c = z3.And(list(h[0][0])) if len(h[0][0]) > 1 else h[0][0][0]
                    if s.valid(pc, c):
                        h[0] = ((), h[0][1])
                        continue
                    # split
                    r = s.eq_atoms([((), h[0][1])] + h[1:] if h is a else a, [((), h[0][1])] + h[1:] if h is b else b, pc + [c], budget)
                    if r:
                        return r
                    return s.eq_atoms(h[1:] if h is a else a, h[1:] if h is b else b, pc + [z3.Not(c)], budget)
            if not a or not b:
                x = (a or b)[0][1]
                if s.void(x, pc):
                    (a or b).pop(0)
                    continue
                return "differs" if s.quiet else f"{'only the function' if a else 'only the contract'} yields {str(x)[:300]} when {str(pc[-3:])[:300]}"
            x, y = a[0][1], b[0][1]
            if isinstance(x, Ch) and isinstance(y, Ch):
                # literal pieces: compared character by character
                p, q = s.text(x.v), s.text(y.v)
                if p is not None and q is not None:
                    n = min(len(p), len(q))
                    s.vcs += 1
                    if p[:n] != q[:n]:
                        return f"text {p!r} is not {q!r}"
                    a[0:1] = [((), Ch(s.const("s:" + p[n:], "str")))] if p[n:] else []
                    b[0:1] = [((), Ch(s.const("s:" + q[n:], "str")))] if q[n:] else []
                    continue
            r = s.eq_seg(x, y, pc)
            if r:
                v = [s.void(h, pc) for h in (x, y)]
                if v[0] != v[1]:
                    (a if v[0] else b).pop(0)
                    continue
                return r
            a.pop(0)
            b.pop(0)

    def void(s, x, pc):
        """a loop that yields nothing under pc"""
        if isinstance(x, For) and isinstance(x.src, Op) and z3.is_app(x.src.t) and x.src.t.decl().name() == "tail" and s.short(x.src.t.arg(0), pc):
            return True
        return isinstance(x, For) and not x.carry and not any(s.sat(pc + list(g)) and not s.void(y, pc + list(g)) for g, y in s.flat(x.body))

    def short(s, t, pc):
        """a list which has at most one element under pc"""
        r = s.lists.get(t.decl().name())
        if r is None or r[0] != "list" or s.quiet:
            return False
        l = s.subst(r[1], list(zip(r[2], t.children()))) if r[2] else r[1]
        s.quiet += 1
        try:
            return s.short_(l, pc)
        finally:
            s.quiet -= 1

    def short_(s, l, pc):
        ex = s.same_payload("search", l, "")
        if ex is not None and s.valid(pc, z3.Not(ex[0])):
            return True

        def units(l):
            return Lst([Item(s.const("()")) if isinstance(y, Item) else Case([(c, units(m)) for c, m in y.cs]) if isinstance(y, Case) else For(y.var, y.src, units(y.body), y.carry) if isinstance(y, For) else y for y in l.segs])
        u = s.same_payload("list", units(l), "")
        return u is not None and s.valid(pc, s.f("len", 1, I)(u.t) <= 1)

    def canon(s, x):
        if isinstance(x, For) and not x.carry and len(x.body.segs) == 1 and isinstance(x.body.segs[0], Item) and not isinstance(x.body.segs[0], Ch):
            v = x.body.segs[0].v
            if isinstance(v, Op) and v.t.eq(x.var.t) or z3.is_expr(v) and (v.eq(s.u2i(x.var.t)) if v.sort() == I else v.eq(s.u2b(x.var.t)) if v.sort() == B else False):
                return Splice(x.src)
        return x

    def eq_seg(s, x, y, pc):
        if isinstance(x, Item) and isinstance(y, Item):
            return s.eq_vals(x.v, y.v, pc)
        x, y = s.canon(x), s.canon(y)
        if isinstance(x, (Splice, Ch)) and isinstance(y, (Splice, Ch)):
            return s.eq_vals(x.v, y.v, pc)
        if isinstance(x, For) and isinstance(y, For):
            r = s.eq_vals(x.src, y.src, pc)
            if r and len(x.carry) == len(y.carry):
                return "~" + r if s.searches(x.body) - s.searches(y.body) else r
            if len(x.carry) != len(y.carry) or len(x.carry) > 4:
                return "~loops carry different state"
            first = None
            for perm in itertools.permutations(y.carry):
                r = s.eq_loop(x, y, perm, pc)
                if r is None:
                    return None
                if first is None or first.startswith("~"):
                    first = r
            return first
        return "~" + s.diff(x, y)

    def searches(s, l):
        """the searches the conditions of a loop depend on"""
        return {y.decl().name() for t in s.terms(l) for y in subterms(t) if z3.is_app(y) and s.lists.get(y.decl().name(), ("",))[0] == "search"}

    def eq_loop(s, x, y, ycarry, pc):
        """loops over the same source: the same start and, from equal states, the same additions and the same next states"""
        sub_ = [(y.var.t, x.var.t)]
        for (cx, ix, _), (cy, iy, _) in zip(x.carry, ycarry):
            if self_sort(cx) != self_sort(cy):
                return "~loops carry different state"
            r = s.eq_vals(ix, iy, pc)
            if r:
                return "~initial value: " + r
            sub_.append((cy.t if isinstance(cy, Op) else cy, cx.t if isinstance(cx, Op) else cx))
        for (cx, ix, nx), (cy, iy, ny) in zip(x.carry, ycarry):
            for c1, v1 in nx:
                for c2, v2 in ny:
                    c2s = z3.substitute(c2, *sub_)
                    if s.sat(list(pc) + [c1, c2s]):
                        r = s.eq_vals(v1, s.subst(v2, sub_), list(pc) + [c1, c2s])
                        if r:
                            return why("carried value: ", r)
        return s.eq_lists(x.body, s.subst(y.body, sub_), pc)

    def terms(s, v, skip=None):
        """all terms in a value"""
        if v is skip:
            return []
        if isinstance(v, Op):
            return [v.t]
        if z3.is_expr(v):
            return [v]
        if isinstance(v, Con):
            return [t for x in v.a for t in s.terms(x, skip)]
        if isinstance(v, Tup):
            return [t for x in v.e for t in s.terms(x, skip)]
        if isinstance(v, Rec):
            return [t for x in v.f.values() for t in s.terms(x, skip)]
        if isinstance(v, Lst):
            return [t for x in v.segs for t in s.terms(x, skip)]
        if isinstance(v, (Item, Splice)):
            return s.terms(v.v, skip)
        if isinstance(v, Case):
            return [t for c, l in v.cs for t in [c] + s.terms(l, skip)]
        if isinstance(v, For):
            return s.terms(v.src, skip) + s.terms(v.body, skip) + [t for _, i, nx in v.carry for t in s.terms(i, skip) + [y for g, w in nx for y in [g] + s.terms(w, skip)]]
        return []

    def subst(s, v, m):
        if isinstance(v, Op):
            return Op(z3.substitute(v.t, *m), v.ty)
        if z3.is_expr(v):
            return z3.substitute(v, *m)
        if isinstance(v, Con):
            return Con(v.n, *[s.subst(x, m) for x in v.a])
        if isinstance(v, Tup):
            return Tup([s.subst(x, m) for x in v.e])
        if isinstance(v, Rec):
            return Rec(v.n, {k: s.subst(x, m) for k, x in v.f.items()})
        if isinstance(v, Lst):
            return Lst([s.subst(x, m) for x in v.segs])
        if isinstance(v, Item):
            return type(v)(s.subst(v.v, m))
        if isinstance(v, Splice):
            return Splice(s.subst(v.v, m))
        if isinstance(v, For):
            return For(v.var, s.subst(v.src, m), s.subst(v.body, m), [(c, s.subst(i, m), [(z3.substitute(g, *m), s.subst(n, m)) for g, n in nx]) for c, i, nx in v.carry])
        if isinstance(v, Case):
            return Case([(z3.substitute(c, *m), s.subst(l, m)) for c, l in v.cs])
        return v

    def as_list(s, o, ety=None):
        """the elements of an opaque sequence"""
        if s.is_default(o):
            return Lst()
        x = Op(s.fresh("e"), ety or inner(o.ty))
        return Lst([For(x, o, Lst([Item(x)]))])


def subterms(t):
    seen, stack = {}, [t]
    while stack:
        y = stack.pop()
        if y.get_id() not in seen:
            seen[y.get_id()] = y
            stack += y.children()
    return seen.values()


def why(p, r):
    return "~" + p + r[1:] if r.startswith("~") else p + r


def self_sort(v):
    if isinstance(v, Op):
        return "U"
    return "stop" if v.decl().name().startswith("stop!") else str(v.sort())


class Sym:
    """evaluates functions of some files; `opaque`: names under contract"""

    def __init__(s, repo, rels, opaque=(), eng=None, extra_types=(), receivers=()):
        s.e = eng or Engine()
        s.fns, s.multi = {}, set()
        s.qual = {}
        s.owner = {}
        s.custom_eq = {}
        s.derefs = set()
        s.mutself, s.refself = set(), set()
        s.enums = {}
        s.rets = {}
        s.fields, s.consts = {}, {}
        s.structs = dict(LSP)
        s.opaque = set(opaque)
        s.total = set()  # the functions assumed to give Ok
        s.depth = 0
        s.spec_fns = {}
        s.ctors = {}
        s.cell = 0
        s.partial = False
        s.opaque_ids = {}
        s.deadline = None
        s.dead = []
        for r in list(rels) + list(extra_types) + list(receivers):
            for f, items in load(repo, r):
                mod = f[len(repo) + 1:]
                for path, i in walk(items):
                    if i["k"] == "fn":
                        if i["i"] and i["i"][0]["p"].get("n") == "self":
                            (s.mutself if i["i"][0]["ty"].replace(" ", "").startswith("&mut") else s.refself).add(i["n"])
                        if r in receivers:
                            continue
                        if i["o"]:
                            s.rets.setdefault(i["n"], set()).add(norm_ty(i["o"]))
                        if r in rels and i.get("b"):
                            owner = path[-1][1] if path and path[-1][0] == "impl" else ""
                            resolve_self(i, owner)
                            s.qual[(mod, owner, i["n"])] = i
                            s.owner[id(i)] = re.sub(r"<.*", "", owner)
                            if i["n"] == "deref" and re.sub(r"\s", "", str(i["b"]["s"])).count("'n':'0'") == 1 and len(i["b"]["s"]) == 1:
                                s.derefs.add(re.sub(r"<.*", "", owner))
                            if i["n"] == "eq" and path and path[-1][2] and "PartialEq" in path[-1][2]:
                                s.custom_eq[owner] = i
                            if i["n"] in s.fns:
                                s.multi.add(i["n"])
                            s.fns[i["n"]] = i
                            s.nested(i, mod)
                    elif r in receivers:
                        continue
                    elif i["k"] == "type":
                        ALIAS[i["n"]] = norm_ty(i["ty"])
                    elif i["k"] == "structdef":
                        for n, t in i["f"]:
                            if n:
                                s.fields.setdefault(n, set()).add(norm_ty(t))
                                s.structs.setdefault(i["n"], {})[n] = norm_ty(t)
                    elif i["k"] == "enum":
                        vs = [x["n"] for x in i["v"]]
                        if 1 < len(vs) <= 24 and all(not x["f"] for x in i["v"]):
                            for x in vs:
                                s.e.variants[i["n"] + "::" + x] = [[i["n"] + "::" + y for y in vs]]
                    elif i["k"] == "const":
                        s.consts[i["n"]] = i["e"]

    def contract(s, impl, lost, defs):
        """functions under contract (opaque to their callers), contracts without a function (their callers see the definition) and definitions"""
        s.opaque_ids = {id(f): k for k, f in impl.items()}
        s.spec_fns = dict(defs)
        for k, f in lost.items():
            s.spec_fns.setdefault(k[2], f)

    def is_opaque(s, f):
        return id(f) in s.opaque_ids or f["n"] in s.opaque

    def label(s, f):
        k = s.opaque_ids.get(id(f))
        if k and f["n"] in s.multi:
            return k[0].split("/")[-1][:-3] + "::" + f["n"]
        return f["n"]

    def nested(s, f, mod):
        for x in f["b"]["s"]:
            if x["k"] == "item" and x.get("i", x.get("e", {})).get("k") == "fn":
                i = x.get("i", x.get("e"))
                s.qual[(mod, f["n"], i["n"])] = i
                if i["n"] in s.fns:
                    s.multi.add(i["n"])
                s.fns[i["n"]] = i

    # ---- types of opaque results
    def ret_ty(s, name):
        if name in BUILTIN:
            return BUILTIN[name]
        t = s.rets.get(name)
        if t:
            if len(t) == 1:
                return next(iter(t))
            cs = {cat(x) for x in t}
            if len(cs) == 1:
                return {"opt": "Option", "iter": "implIterator", "bool": "bool", "int": "u32", "str": "str", "res": "Result"}.get(cs.pop())
        return None

    def field_ty(s, name, ty=None):
        base = re.sub(r"<.*", "", ty or "").split("::")[-1]
        if base in s.structs:
            return s.structs[base].get(name)
        ts = set(s.fields.get(name, ())) | {x[name] for x in LSP.values() if name in x}
        if len(ts) == 1:
            return next(iter(ts))
        cs = {cat(x) for x in ts}
        if len(cs) == 1:
            return {"opt": "Option", "iter": "Vec", "bool": "bool"}.get(cs.pop())
        return None

    def wrap(s, o):
        """opaque terms of type bool, int as formulas"""
        c = cat(o.ty)
        if c == "bool":
            return s.e.u2b(o.t)
        if c == "int":
            return s.e.u2i(o.t)
        return o

    # ---- booleans and forks
    def truth(s, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, Op):
            return s.e.u2b(v.t)
        if z3.is_expr(v) and v.sort() == B:
            return v
        raise Unsupported("condition")

    def fork(s, st, c):
        """[(st, bool)]"""
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        for b, f in ((True, c), (False, z3.Not(c))):
            if s.e.sat(st.pc + (f,)):
                out.append((st.assume(f), b))
        return out

    def num(s, v):
        if isinstance(v, Op):
            return s.e.u2i(v.t)
        if z3.is_expr(v) and v.sort() == I:
            return v
        raise Unsupported("number")

    def equal(s, a, b):
        a, b = [z3.BoolVal(x) if isinstance(x, bool) else x for x in (a, b)]
        if isinstance(a, Con) and isinstance(b, Con):
            if a.n != b.n:
                return z3.BoolVal(False)
            return z3.And([s.equal(x, y) for x, y in zip(a.a, b.a)]) if a.a else z3.BoolVal(True)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Con) and isinstance(y, Op):
                if x.n == "None":
                    return z3.Not(s.e.b("is_some", y.t))
                if x.n == "Some":
                    return z3.And(s.e.b("is_some", y.t), s.equal(s.e.app("payload", y.t, ty=inner(y.ty)), x.a[0]))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return z3.And([s.equal(x, y) for x, y in zip(a.e, b.e)])
        if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
            return a == b
        if z3.is_expr(a) and a.sort() == I or z3.is_expr(b) and b.sort() == I:
            return s.num(a) == s.num(b)
        if z3.is_expr(a) and a.sort() == B or z3.is_expr(b) and b.sort() == B:
            return s.truth(a) == s.truth(b)
        if isinstance(a, Op) and isinstance(b, Op) and cat(a.ty) == "opt" and cat(b.ty) == "opt" and not a.t.eq(b.t):
            x, y = s.e.b("is_some", a.t), s.e.b("is_some", b.t)
            p, q = [s.wrap(s.e.app("payload", o.t, ty=inner(o.ty))) for o in (a, b)]
            return z3.And(x == y, z3.Implies(x, s.equal(p, q)))
        for x in (a, b):
            ty = re.sub(r"<.*", "", x.ty or "") if isinstance(x, Op) else ""
            if ty in s.custom_eq and s.custom_eq[ty]["n"] not in s.stack:
                f = s.custom_eq[ty]
                st = S()
                x, y = [Op(v.t, ty) if isinstance(v, Op) else v for v in (a, b)]
                old = s.stack
                s.stack = old + ("eq",)
                try:
                    outs = s.apply(Clo([p["p"] for p in f["i"]], f["b"], {}), [x, y], st)
                finally:
                    s.stack = old
                return z3.simplify(z3.Or([z3.And(s.conj(n.pc), s.truth(v)) for n, v in outs]))
        return s.e.to_u(a) == s.e.to_u(b)

    # ---- options
    def opt_cases(s, v, st):
        """[(st, Con)] of an option or result"""
        if isinstance(v, Con):
            return [(st, v)]
        if isinstance(v, Op):
            c = cat(v.ty)
            if z3.is_app(v.t) and v.t.decl().name() in s.total:
                return [(st, Con("Ok", s.wrap(s.e.app("payload", v.t, ty=inner(v.ty)))))]
            if c == "res":
                return [(n, Con("Ok", s.wrap(s.e.app("payload", v.t, ty=inner(v.ty)))) if b else Con("Err", s.e.app("error", v.t)))
                        for n, b in s.fork(st, s.e.b("is_ok", v.t))]
            return [(n, Con("Some", s.wrap(s.e.app("payload", v.t, ty=inner(v.ty)))) if b else NONE) for n, b in s.fork(st, s.e.b("is_some", v.t))]
        raise Unsupported(f"{type(v).__name__} as an option")

    # ---- patterns: [(st, env, matched)]
    def bind(s, st, env, name, v):
        s.cell += 1
        n = st.cp()
        n.store[s.cell] = v
        return n, {**env, name: s.cell}

    def enum_const(s, path):
        """the value a path names: `Enum::Variant` whatever the way it is imported"""
        q = path.split("::")
        if len(q) < 2 or not q[-2][:1].isupper():
            return s.e.const(q[-1])
        n = "::".join(q[-2:])
        new = n not in s.e.consts
        c = s.e.const(n)
        if new:
            s.e.axiom(s.e.variant(c.t, n))
        return c

    def match(s, p, v, env, st):
        k = p["k"]
        if isinstance(v, Ref) and k != "pid":
            v = st.store[v.cell]
        if k == "pid":
            if p["n"].isupper() and p["n"] not in env and len(p["n"]) > 1:
                return [(n, env, b) for n, b in s.fork(st, s.equal(v, s.e.const(p["n"])))]
            if p["n"] == "None":
                return s.match({"k": "ppath", "p": "None"}, v, env, st)
            outs = [(st, env, True)]
            if p.get("sub"):
                outs = s.match(p["sub"], v, env, st)
            r = []
            for n, e, ok in outs:
                if ok:
                    n, e = s.bind(n, e, p["n"], v)
                r.append((n, e, ok))
            return r
        if k in ("pwild", "prest"):
            return [(st, env, True)]
        if k in ("pref", "ptype"):
            return s.match(p["e"], v, env, st)
        if k == "ptuple":
            if isinstance(v, Op):
                v = Tup([s.e.app(f"#{i}", v.t, ty=s.tuple_ty(v.ty, i)) for i in range(len(p["e"]))])
                v = Tup([s.wrap(x) for x in v.e])
            if not isinstance(v, Tup):
                raise Unsupported("tuple pattern")
            return s.match_all(p["e"], v.e, env, st)
        if k in ("pts", "ppath"):
            name = p["p"]
            last = name.split("::")[-1]
            if name in ("Some", "None", "Ok", "Err"):
                out = []
                for n, c in s.opt_cases(v, st):
                    if c.n != name:
                        out.append((n, env, False))
                    elif name == "None":
                        out.append((n, env, True))
                    else:
                        out += s.match(p["e"][0], c.a[0], env, n)
                return out
            if k == "ppath":
                if isinstance(v, (Op,)):
                    return [(n, env, b) for n, b in s.fork(st, v.t == s.enum_const(name).t)]
                raise Unsupported("path pattern")
            if isinstance(v, Con) and v.n.split("::")[-1] == last:
                return s.match_all(p["e"], v.a, env, st)
            if isinstance(v, Con) or isinstance(v, Rec) and "::" in name and v.n.split("::")[-1] != last:
                return [(st, env, False)]
            if isinstance(v, Op) and z3.is_app(v.t) and v.t.decl().name() in s.ctors and v.t.num_args() == s.ctors[v.t.decl().name()]:
                if v.t.decl().name() != last:
                    return [(st, env, False)]
                return s.match_all(p["e"], [s.wrap(Op(s_)) for s_ in v.t.children()], env, st)
            if isinstance(v, Op) and last in ("Token", "Node") and len(p["e"]) == 1 and not (v.ty or "").startswith("Option"):
                # NodeOrToken: the variants are what into_token and into_node give
                out = []
                for n, b in s.fork(st, s.e.b("is_some", s.e.app("into_" + last.lower(), v.t).t)):
                    if b:
                        x = s.e.app("payload", s.e.app("into_" + last.lower(), v.t).t, ty=inner({"Token": "Option<SyntaxToken>", "Node": "Option<SyntaxNode>"}[last]))
                        out += s.match_all(p["e"], [x], env, n)
                    else:
                        out.append((n, env, False))
                return out
            if isinstance(v, Op):
                out = []
                for n, b in s.fork(st, s.e.variant(v.t, last)):
                    if b:
                        es = [q for q in p["e"]]
                        vs = [s.e.app(f"{last}.{i}", v.t) for i in range(len(es))]
                        out += s.match_all(es, vs, env, n)
                    else:
                        out.append((n, env, False))
                return out
            raise Unsupported(f"pattern {name} of {type(v).__name__} {str(v)[:80]}")
        if k == "pstruct":
            fs = p["f"]
            if re.match(r"[a-z_]\w*$", (p["p"].split("::")[-2:-1] or ["X"])[0]):     # a struct of a module, not a variant of an enum
                p = {**p, "p": p["p"].split("::")[-1]}
            if isinstance(v, Con) or isinstance(v, Rec) and "::" in p["p"] and v.n.split("::")[-1] != p["p"].split("::")[-1]:
                return [(st, env, False)]
            if isinstance(v, Rec):
                return s.match_all([q for _, q in fs], [v.f[n] for n, _ in fs], env, st)
            if isinstance(v, Op):
                vs = [s.wrap(s.e.app("." + n, v.t, ty=s.field_ty(n, v.ty))) for n, _ in fs]
                last = p["p"].split("::")[-1]
                if "::" in p["p"]:
                    out = []
                    for n, b in s.fork(st, s.e.variant(v.t, last)):
                        out += s.match_all([q for _, q in fs], vs, env, n) if b else [(n, env, False)]
                    return out
                return s.match_all([q for _, q in fs], vs, env, st)
            raise Unsupported("struct pattern")
        if k == "plit":
            x = s.lit(p["v"])
            return [(n, env, b) for n, b in s.fork(st, s.equal(v, x))]
        if k == "por":
            out, pend = [], [st]
            for q in p["e"]:
                nx = []
                for n in pend:
                    for n2, e2, ok in s.match(q, v, env, n):
                        if ok:
                            out.append((n2, e2, True))
                        else:
                            nx.append(n2)
                pend = nx
            # without bindings: one formula instead of many paths
            if len(out) > 1 and all(e2 is env for _, e2, _ in out):
                base = st.pc
                conds = []
                for n2, _, _ in out:
                    c = n2.pc[len(base):]
                    conds.append(z3.And(list(c)) if len(c) != 1 else c[0])
                out = [(st.assume(z3.Or(conds)), env, True)]
                pend = [st.assume(z3.Not(z3.Or(conds)))] if pend else []
            return out + [(n, env, False) for n in pend]
        if k == "prange" and p.get("lo") is not None or k == "prange" and p.get("hi") is not None:
            x = s.num(v)
            c = z3.BoolVal(True)
            if p.get("lo"):
                c = z3.And(c, x >= s.num(s.lit(p["lo"])))
            if p.get("hi"):
                h = s.num(s.lit(p["hi"]))
                c = z3.And(c, x <= h if p.get("incl") else x < h)
            return [(n, env, b) for n, b in s.fork(st, c)]
        if k == "pslice":
            l = v
            ps = p["e"]
            if ps and (ps[-1]["k"] == "prest" or ps[-1]["k"] == "pid" and (ps[-1].get("sub") or {}).get("k") == "prest"):
                outs = [(st, env, True, s.to_list(l, st))]
                for q in ps[:-1]:
                    nx = []
                    for n, e, ok, rest in outs:
                        if not ok:
                            nx.append((n, e, ok, rest))
                            continue
                        for n2, c in s.first(rest, n):
                            if c.n == "None":
                                nx.append((n2, env, False, rest))
                            else:
                                nx += [(n3, e3, ok3, s.to_list(s.tail(rest), n3)) for n3, e3, ok3 in s.match(q, c.a[0], e, n2)]
                    outs = nx
                r = []
                for n, e, ok, rest in outs:
                    if ok and ps[-1]["k"] == "pid":
                        n, e = s.bind(n, e, ps[-1]["n"], rest)
                    r.append((n, e, ok))
                return r
            if isinstance(l, Op):
                ps = p["e"]
                if any(q["k"] == "prest" or q["k"] == "pid" and q.get("sub") for q in ps):
                    raise Unsupported("slice pattern")
                out = []
                for n, b in s.fork(st, s.e.f("len", 1, I)(l.t) == len(ps)):
                    out += s.match_all(ps, [s.e.app(f"[{i}]", l.t, ty=inner(l.ty)) for i in range(len(ps))], env, n) if b else [(n, env, False)]
                return out
            if isinstance(l, Lst) and all(isinstance(g, Item) for g in l.segs):
                if len(l.segs) != len(p["e"]):
                    return [(st, env, False)]
                return s.match_all(p["e"], [g.v for g in l.segs], env, st)
        raise Unsupported("pattern " + k)

    def tuple_ty(s, ty, i):
        if not ty or ty[0] != "(":
            return None
        parts, d, cur = [], 0, ""
        for c in ty[1:-1]:
            if c in "<([":
                d += 1
            elif c in ">)]":
                d -= 1
            if c == "," and d == 0:
                parts.append(cur)
                cur = ""
            else:
                cur += c
        parts.append(cur)
        return norm_ty(parts[i]) if i < len(parts) else None

    def match_all(s, ps, vs, env, st):
        if any(q["k"] == "prest" for q in ps):
            i = [q["k"] for q in ps].index("prest")
            tail = len(ps) - i - 1
            pairs = list(zip(ps[:i], vs[:i])) + (list(zip(ps[i + 1:], vs[len(vs) - tail:])) if tail else [])
        else:
            if len(ps) != len(vs):
                raise Unsupported("arity of a pattern")
            pairs = list(zip(ps, vs))
        outs = [(st, env, True)]
        for q, x in pairs:
            nx = []
            for n, e, ok in outs:
                nx += s.match(q, x, e, n) if ok else [(n, e, ok)]
            outs = nx
        return outs

    def lit(s, e):
        k = e["k"]
        if k == "int":
            return z3.IntVal(int(str(e["v"]).replace("_", ""), 0) if not isinstance(e["v"], int) else e["v"])
        if k == "bool":
            return z3.BoolVal(bool(e["v"]))
        if k == "str" and e["v"] == "":
            return s.e.const("[]", "str")
        if k in ("str", "char"):
            return s.e.const(("s:" if k == "str" else "c:") + e["v"], "str" if k == "str" else "char")
        if k == "un" and e["o"] == "-":
            return -s.lit(e["e"])
        if k == "path":
            return s.e.const(e["p"].split("::")[-1])
        raise Unsupported("literal " + k)

    # ---- expressions
    def ev(s, e, env, st):
        m = getattr(s, "ev_" + e["k"].replace("?", ""), None)
        if m is None or "?" in e["k"]:
            raise Unsupported(f"expression {e['k']} at line {e.get('l')}")
        return m(e, env, st)

    def seq(s, es, env, st):
        outs = [(st, [])]
        for e in es:
            nx = []
            for n, vs in outs:
                if vs and isinstance(vs[-1], Ctl):
                    nx.append((n, vs))
                else:
                    nx += [(n2, vs + [v]) for n2, v in s.ev(e, env, n)]
            outs = nx
        return outs

    def ev_lit(s, e, env, st):
        return [(st, s.lit(e))]
    ev_str = ev_char = ev_int = ev_bool = ev_lit

    def ev_path(s, e, env, st):
        p = e["p"]
        if p in env:
            return [(st, st.store[env[p]])]
        if p == "None":
            return [(st, NONE)]
        last = p.split("::")[-1]
        if last in s.consts and last.isupper() and not any(x.get("k") == "closure" for x in sub(s.consts[last])):
            return s.ev(s.consts[last], {}, st)
        if last[:1].isupper():
            # enum value, or a constructor used as a function
            return [(st, s.enum_const(p) if not (e.get("fnpos")) else Fn(p))]
        return [(st, Fn(p))]

    def ev_tuple(s, e, env, st):
        if not e["e"]:
            return [(st, UNIT)]
        return [(n, vs[-1] if isinstance(vs[-1], Ctl) else Tup(vs)) for n, vs in s.seq(e["e"], env, st)]

    def ev_array(s, e, env, st):
        return [(n, vs[-1] if vs and isinstance(vs[-1], Ctl) else Lst([Item(v) for v in vs])) for n, vs in s.seq(e["e"], env, st)]

    def ev_closure(s, e, env, st):
        return [(st, Clo(e["i"], e["e"], env))]

    def ev_block(s, e, env, st):
        outs = [(st, env, UNIT)]
        for x in e["s"]:
            nx = []
            for n, en, v in outs:
                if isinstance(v, Ctl):
                    nx.append((n, en, v))
                    continue
                if x["k"] == "let":
                    if x["e"] is None:
                        n2, e2 = s.bind(n, en, x["p"]["n"], UNIT)
                        nx.append((n2, e2, UNIT))
                        continue
                    for n2, w in s.ev(x["e"], en, n):
                        if isinstance(w, Ctl):
                            nx.append((n2, en, w))
                            continue
                        if isinstance(w, Op) and x.get("ty"):
                            w = Op(w.t, w.ty or norm_ty(x["ty"]))
                        for n3, e3, ok in s.match(x["p"], w, en, n2):
                            if ok:
                                nx.append((n3, e3, UNIT))
                            elif x.get("else"):
                                nx += [(n4, en, w4) for n4, w4 in s.ev(x["else"], en, n3)]
                elif x["k"] == "expr":
                    rs = s.ev(x["e"], en, n)
                    if x["semi"] or x["e"]["k"] in ("if", "match", "for"):
                        rs = s.merge(n, rs, x["semi"])
                    for n2, w in rs:
                        nx.append((n2, en, w if isinstance(w, Ctl) or not x["semi"] else UNIT))
                elif x["k"] == "item":
                    nx.append((n, en, v))
                else:
                    raise Unsupported("statement " + x["k"])
            if len(nx) > 3000:
                raise Unsupported("too many paths")
            outs = nx
        return [(n, v) for n, _, v in outs]

    def merge(s, base, outs, semi=True):
        """paths of a statement that differ only in what they appended"""
        norm = [(n, v) for n, v in outs if not isinstance(v, Ctl) and (semi or v is UNIT)]
        if len(norm) < 2:
            return outs
        rest = [(n, v) for n, v in outs if isinstance(v, Ctl) or not (semi or v is UNIT)]
        cells, flags = set(), set()
        for n, _ in norm:
            for c, v in base.store.items():
                w = n.store[c]
                if w is not v:
                    if (isinstance(v, bool) or z3.is_expr(v) and v.sort() == B) and (isinstance(w, bool) or z3.is_expr(w) and w.sort() == B):
                        flags.add(c)
                        continue
                    if not (isinstance(v, Lst) and isinstance(w, Lst) and len(w.segs) >= len(v.segs) and all(x is y for x, y in zip(v.segs, w.segs))):
                        return outs
                    cells.add(c)
        k = len(base.pc)
        if any(n.pc[:k] != base.pc for n, _ in norm):
            return outs
        cs = [s.conj(n.pc[k:]) for n, _ in norm]
        m = S(base.pc if not rest else base.pc + (z3.Or(cs),), dict(base.store))
        for c in cells:
            old = base.store[c].segs
            m.store[c] = Lst(old + (Case([(g, Lst(n.store[c].segs[len(old):])) for g, (n, _) in zip(cs, norm)]),))
        for c in flags:
            m.store[c] = z3.simplify(z3.Or([z3.And(g, s.truth(n.store[c])) for g, (n, _) in zip(cs, norm)]))
        return [(m, UNIT)] + rest

    def conj(s, cs):
        return z3.BoolVal(True) if not cs else cs[0] if len(cs) == 1 else z3.And(list(cs))

    def cond(s, c, env, st):
        """[(st, env, bool)]"""
        if c["k"] == "iflet":
            r = []
            for n, v in s.ev(c["e"], env, st):
                if isinstance(v, Ctl):
                    r.append((n, env, v))
                else:
                    r += s.match(c["p"], v, env, n)
            return r
        if c["k"] == "bin" and c["o"] == "&&" and any(x.get("k") == "iflet" for x in sub(c)):
            r = []
            for n, e, b in s.cond(c["a"], env, st):
                r += [(n, e, b)] if isinstance(b, Ctl) else s.cond(c["b"], e, n) if b else [(n, e, False)]
            return r
        r = []
        for n, v in s.ev(c, env, st):
            if isinstance(v, Ctl):
                r.append((n, env, v))
                continue
            r += [(n2, env, b) for n2, b in s.fork(n, s.truth(v))]
        return r

    def ev_if(s, e, env, st):
        r = []
        for n, en, b in s.cond(e["c"], env, st):
            if isinstance(b, Ctl):
                r.append((n, b))
            elif b:
                r += s.ev(e["t"], en, n)
            elif e["e"]:
                r += s.ev(e["e"], env, n)
            else:
                r.append((n, UNIT))
        return s.join_bools(st, r)

    def ev_iflet(s, e, env, st):
        return [(n, b if isinstance(b, Ctl) else z3.BoolVal(b)) for n, _, b in s.cond(e, env, st)]

    def join_bools(s, st, outs):
        """paths that only differ in a truth value: one path with a formula"""
        if len(outs) < 2 or not all(isinstance(v, bool) or z3.is_expr(v) and v.sort() == B for _, v in outs):
            return outs
        k = len(st.pc)
        for n, v in outs:
            if n.pc[:k] != st.pc or any(n.store.get(c) is not w for c, w in st.store.items()):
                return outs
        f = z3.Or([z3.And(s.conj(n.pc[k:]), s.truth(v)) for n, v in outs])
        return [(st, z3.simplify(f))]

    def ev_match(s, e, env, st):
        r = []
        for n, v in s.ev(e["e"], env, st):
            if isinstance(v, Ctl):
                r.append((n, v))
                continue
            r0, pend = [], [n]
            for a in e["a"]:
                nx = []
                for q in pend:
                    for n2, e2, ok in s.match(a["p"], v, env, q):
                        if not ok:
                            nx.append(n2)
                        elif a["g"]:
                            for n3, e3, b in s.cond(a["g"], e2, n2):
                                if isinstance(b, Ctl):
                                    r0.append((n3, b))
                                elif b:
                                    r0 += s.ev(a["e"], e3, n3)
                                else:
                                    nx.append(n3)
                        else:
                            r0 += s.ev(a["e"], e2, n2)
                pend = nx
            # rustc checked that the arms are exhaustive
            s.dead += [s.conj(q.pc) for q in pend]
            r += s.join_bools(n, r0)
        return r

    def ev_matches(s, e, env, st):
        r = []
        for n, v in s.ev(e["e"], env, st):
            r0 = []
            for n2, e2, ok in s.match(e["p"], v, env, n):
                if ok and e.get("g"):
                    r0 += [(n3, z3.BoolVal(b)) for n3, _, b in s.cond(e["g"], e2, n2)]
                else:
                    r0.append((n2, z3.BoolVal(ok)))
            r += s.join_bools(n, r0)
        return r

    def ev_return(s, e, env, st):
        if e["e"] is None:
            return [(st, Ctl("ret", UNIT))]
        return [(n, v if isinstance(v, Ctl) else Ctl("ret", v)) for n, v in s.ev(e["e"], env, st)]

    def ev_continue(s, e, env, st):
        return [(st, Ctl("cont"))]

    def ev_break(s, e, env, st):
        if e["e"] is None:
            return [(st, Ctl("brk", UNIT))]
        return [(n, Ctl("brk", v)) for n, v in s.ev(e["e"], env, st)]

    def ev_try(s, e, env, st):
        r = []
        for n, v in s.ev(e["e"], env, st):
            if isinstance(v, Ctl):
                r.append((n, v))
                continue
            for n2, c in s.opt_cases(v, n):
                r.append((n2, c.a[0] if c.n in ("Some", "Ok") else Ctl("ret", c)))
        return r

    def ev_ref(s, e, env, st):
        if e["mut"] and e["e"]["k"] == "path" and e["e"]["p"] in env:
            c = env[e["e"]["p"]]
            v = st.store[c]
            return [(st, v if isinstance(v, Ref) else Ref(c))]
        return s.ev(e["e"], env, st)

    def ev_un(s, e, env, st):
        r = []
        for n, v in s.ev(e["e"], env, st):
            if isinstance(v, Ctl):
                r.append((n, v))
            elif e["o"] == "*":
                r.append((n, n.store[v.cell] if isinstance(v, Ref) else v))
            elif e["o"] == "!":
                r.append((n, z3.Not(s.truth(v))))
            else:
                r.append((n, -s.num(v)))
        return r

    def ev_bin(s, e, env, st):
        o = e["o"]
        if o in ("&&", "||"):
            r = []
            for n, a in s.ev(e["a"], env, st):
                if isinstance(a, Ctl):
                    r.append((n, a))
                    continue
                a = s.truth(a)
                # the right side is evaluated under the assumption that it is reached
                g = a if o == "&&" else z3.Not(a)
                if not s.e.sat(n.pc + (g,)):
                    r.append((n, z3.BoolVal(o == "||")))
                    continue
                m = n.assume(g)
                outs = s.ev(e["b"], env, m)
                if all(z3.is_expr(v) and v.sort() == B or isinstance(v, (bool, Op)) for _, v in outs):
                    k = len(m.pc)
                    f = z3.Or([z3.And(s.conj(n2.pc[k:]), s.truth(v)) for n2, v in outs]) if len(outs) > 1 else \
                        z3.And(s.conj(outs[0][0].pc[k:]), s.truth(outs[0][1])) if outs else z3.BoolVal(False)
                    r.append((n, z3.And(a, f) if o == "&&" else z3.Or(a, f)))
                else:
                    r += outs
                    ng = z3.Not(g)
                    if s.e.sat(n.pc + (ng,)):
                        r.append((n.assume(ng), z3.BoolVal(o == "||")))
            return r
        if o.endswith("=") and o not in ("==", "!=", "<=", ">="):
            return s.assign_op(e, env, st)
        r = []
        for n, vs in s.seq([e["a"], e["b"]], env, st):
            if isinstance(vs[-1], Ctl):
                r.append((n, vs[-1]))
                continue
            a, b = [n.store[x.cell] if isinstance(x, Ref) else x for x in vs]
            if o in ("==", "!="):
                c = s.equal(a, b)
                r.append((n, c if o == "==" else z3.Not(c)))
            elif o in ("<", "<=", ">", ">="):
                x, y = s.num(a), s.num(b)
                r.append((n, {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]))
            elif o in ("+", "-", "*"):
                if o == "+" and (s.e.is_str(a) or isinstance(a, Lst)):
                    r.append((n, Lst(s.e.glue(s.e.chunks(a) + s.e.chunks(b)))))
                elif isinstance(a, Op) and isinstance(b, Op) and a.ty not in ("u32", "usize"):
                    r.append((n, s.e.app("op" + o, a.t, b.t)))
                else:
                    x, y = s.num(a), s.num(b)
                    r.append((n, x + y if o == "+" else x - y if o == "-" else x * y))
            elif o in ("&", "|", "^") and all(isinstance(x, bool) or z3.is_expr(x) and x.sort() == B for x in (a, b)):
                r.append((n, s.bits(o, a, b)))
            else:
                r.append((n, s.e.app("op" + o, s.e.to_u(a), s.e.to_u(b))))
        return r

    def place(s, e, env, st):
        if e["k"] == "path" and e["p"] in env:
            c = env[e["p"]]
            v = st.store[c]
            return v.cell if isinstance(v, Ref) else c
        if e["k"] == "un" and e["o"] == "*" or e["k"] == "ref":
            return s.place(e["e"], env, st)
        raise Unsupported("place " + e["k"])

    def ev_assign(s, e, env, st):
        r = []
        for n, v in s.ev(e["b"], env, st):
            if isinstance(v, Ctl):
                r.append((n, v))
                continue
            if e["a"]["k"] in ("pwild",) or e["a"].get("p") == "_":
                r.append((n, UNIT))
                continue
            r.append((s.store(e["a"], v, env, n), UNIT))
        return r

    def store(s, target, v, env, st):
        k = target["k"]
        if k == "path" and target["p"] == "_":
            return st
        if k in ("struct", "tuple"):
            if k == "struct" and target.get("rest"):
                raise Unsupported("destructuring assignment")
            parts = [(n, x) for n, x in target["f"]] if k == "struct" else [(str(i), x) for i, x in enumerate(target["e"])]
            for n, x in parts:
                st = s.store(x, s.field(v, n), env, st)
            return st
        if k == "field":
            c = s.place(target["e"], env, st)
            st = st.cp()
            o = st.store[c]
            if isinstance(o, Op):
                o = Rec(re.sub(r"<.*", "", o.ty or "_"), {"..": o})
            if not isinstance(o, Rec):
                raise Unsupported("assignment to a field")
            st.store[c] = Rec(o.n, {**o.f, target["n"]: v})
            return st
        c = s.place(target, env, st)
        st = st.cp()
        st.store[c] = v
        return st

    def assign_op(s, e, env, st):
        r = []
        for n, v in s.ev(e["b"], env, st):
            c = s.place(e["a"], env, n)
            n = n.cp()
            a, o = n.store[c], e["o"][0]
            if isinstance(a, Lst) or s.e.is_str(a):
                n.store[c] = Lst(s.e.chunks(a) + s.e.chunks(v))
            elif o in "&|^" and all(isinstance(x, bool) or z3.is_expr(x) and x.sort() == B for x in (a, v)):
                n.store[c] = s.bits(o, a, v)
            else:
                x, y = s.num(a), s.num(v)
                n.store[c] = x + y if o == "+" else x - y if o == "-" else x * y
            r.append((n, UNIT))
        return r

    def bits(s, o, a, b):
        a, b = s.truth(a), s.truth(b)
        return z3.And(a, b) if o == "&" else z3.Or(a, b) if o == "|" else z3.Xor(a, b)

    def ev_cast(s, e, env, st):
        return s.ev(e["e"], env, st)

    def ev_field(s, e, env, st):
        r = []
        for n, v in s.ev(e["e"], env, st):
            if isinstance(v, Ref):
                v = n.store[v.cell]
            r.append((n, v if isinstance(v, Ctl) else s.field(v, e["n"])))
        return r

    def field(s, v, name):
        if isinstance(v, Rec):
            if name in v.f:
                return v.f[name]
            if isinstance(v.f.get(".."), Op):
                return s.field(v.f[".."], name)
            raise Unsupported("field " + name)
        if isinstance(v, Tup) and name.isdigit():
            return v.e[int(name)]
        if isinstance(v, Op):
            base = re.sub(r"<.*", "", v.ty or "").split("::")[-1]
            if base in s.derefs and not name.isdigit():
                # a newtype that dereferences to its content
                return s.field(s.field(v, "0"), name)
            if name.isdigit():
                return s.wrap(s.e.app("#" + name, v.t, ty=s.tuple_ty(v.ty, int(name))))
            return s.wrap(s.e.app("." + name, v.t, ty=s.field_ty(name, v.ty)))
        raise Unsupported(f"field of {type(v).__name__}")

    def ev_index(s, e, env, st):
        r = []
        for n, vs in s.seq([e["e"], e["i"]], env, st):
            if isinstance(vs[-1], Ctl):
                r.append((n, vs[-1]))
            elif isinstance(vs[1], Rec) and vs[1].n == "Range" and not vs[1].f:
                r.append((n, n.store[vs[0].cell] if isinstance(vs[0], Ref) else vs[0]))
            else:
                r += s.element(vs[0], vs[1], n) or [(n, s.e.app("index", s.e.to_u(vs[0]), s.e.to_u(vs[1])))]
        return r

    def element(s, v, i, st):
        """l[k] and l[k..] of a list that is known to be long enough"""
        rest = isinstance(i, Rec) and i.n == "Range" and set(i.f) == {"lo"}
        k = i.f["lo"] if rest else i
        if isinstance(v, Ref):
            v = st.store[v.cell]
        if not z3.is_expr(k) or not z3.is_int_value(k) or k.as_long() > 3 or not (isinstance(v, Lst) and not is_map(v) and not s.e.strlist(v) or isinstance(v, Op) and cat(v.ty) == "iter" and v.ty != "HashMap"):
            return None
        l, k = s.to_list(v, st), k.as_long()
        for j in range(k + (not rest)):
            if any(x.n != "Some" for n, x in s.first(l, st) if s.e.sat(n.pc)):
                return None
            if j < k:
                l = s.to_list(s.tail(l), st)
        return [(st, l)] if rest else [(n, x.a[0]) for n, x in s.first(l, st) if s.e.sat(n.pc)]

    def ev_range(s, e, env, st):
        es = [x for x in (e["lo"], e["hi"]) if x]
        r = []
        for n, vs in s.seq(es, env, st):
            d = {}
            it = iter(vs)
            if e["lo"]:
                d["lo"] = next(it)
            if e["hi"]:
                d["hi"] = next(it)
            r.append((n, Rec("Range" + ("Incl" if e.get("incl") and e["hi"] else ""), d)))
        return r

    def ev_struct(s, e, env, st):
        names = [f for f, _ in e["f"]]
        es = [x for _, x in e["f"]] + ([e["rest"]] if e.get("rest") else [])
        r = []
        for n, vs in s.seq(es, env, st):
            if vs and isinstance(vs[-1], Ctl):
                r.append((n, vs[-1]))
                continue
            d = dict(zip(names, vs))
            if e.get("rest"):
                base = vs[-1]
                if isinstance(base, Rec):
                    d = {**base.f, **d}
                else:
                    d[".."] = base
            r.append((n, Rec(e["p"].split("::")[-1], d)))
        return r

    def ev_macro(s, e, env, st):
        n_ = e["n"]
        if n_ == "vec" and e.get("a") is not None:
            return [(n, vs[-1] if vs and isinstance(vs[-1], Ctl) else Lst([Item(v) for v in vs])) for n, vs in s.seq(e["a"], env, st)]
        if n_ in ("debug_assert", "debug_assert_eq", "debug_assert_ne"):
            return [(st, UNIT)]
        if n_ in ("env", "include_str", "concat"):
            return [(st, s.e.const(f"{n_}!({e.get('t') or [x.get('v') for x in e.get('a') or []]})", "str"))]
        if n_ in ("unreachable", "panic", "todo", "unimplemented"):
            return [(st, Ctl("panic"))]
        if n_ in ("format", "write") and e.get("a"):
            a = e["a"] if n_ == "format" else e["a"][1:]
            if a[0]["k"] != "str":
                raise Unsupported("format!")
            tpl = a[0]["v"]
            parts, args = [], list(a[1:])
            named = {x["a"]["p"]: x["b"] for x in args if x["k"] == "assign"}
            args = [x for x in args if x["k"] != "assign"]
            pos = 0
            exprs, pieces = [], []
            for m in re.finditer(r"\{\{|\}\}|\{([^{}]*)\}|[^{}]+", tpl):
                g = m.group(0)
                if m.group(1) is None:
                    pieces.append({"{{": "{", "}}": "}"}.get(g, g))
                    continue
                nm, _, spec = m.group(1).partition(":")
                pieces.append(("arg", spec))
                if nm == "":
                    exprs.append(args[pos])
                    pos += 1
                elif nm.isdigit():
                    exprs.append(args[int(nm)])
                else:
                    exprs.append(named.get(nm, {"k": "path", "p": nm}))
            r = []
            for n, vs in s.seq(exprs, env, st):
                if vs and isinstance(vs[-1], Ctl):
                    r.append((n, vs[-1]))
                else:
                    segs, it = (), iter(vs)
                    for x in pieces:
                        if isinstance(x, str):
                            segs += s.e.chunks(s.e.const("s:" + x, "str"))
                        else:
                            v = next(it)
                            v = n.store[v.cell] if isinstance(v, Ref) else v
                            segs += s.e.chunks(v) if not x[1] else (Ch(s.e.app("fmt:" + x[1], s.e.to_u(v), ty="str")),)
                    l = Lst(s.e.glue(segs))
                    if n_ != "format":
                        c = s.place(e["a"][0], env, n)
                        n = n.cp()
                        if not isinstance(n.store[c], Lst):
                            raise Unsupported("write! to an unknown place")
                        n.store[c] = Lst(n.store[c].segs + l.segs)
                        r.append((n, Con("Ok", UNIT)))
                    else:
                        r.append((n, l))
            return r
        raise Unsupported("macro " + n_)

    # ---- loops
    def ev_for(s, e, env, st):
        r = []
        for n, v in s.ev(e["e"], env, st):
            if isinstance(v, Ctl):
                r.append((n, v))
            else:
                r += s.iterate(s.to_list(v, n), Clo([e["p"]], e["b"], env), n, loop=True)
        return r

    def to_list(s, v, st):
        if isinstance(v, Ref):
            v = st.store[v.cell]
        if isinstance(v, Lst):
            return v
        if isinstance(v, Op):
            if cat(v.ty) == "opt":
                some = s.e.b("is_some", v.t)
                return Lst([Case([(some, Lst([Item(s.wrap(s.e.app("payload", v.t, ty=inner(v.ty))))])), (z3.Not(some), Lst())])])
            return s.as_list(v)
        if isinstance(v, Con):
            return Lst([Item(v.a[0])] if v.n in ("Some", "Ok") else [])
        if isinstance(v, Rec) and v.n.startswith("Range"):
            return s.as_list(Op(s.e.to_u(v), "implIterator<Item=u32>"))
        raise Unsupported(f"iteration over {type(v).__name__}")

    def elem_ty(s, l):
        for _, x in s.e.flat(l):
            if isinstance(x, Item) and isinstance(x.v, Op):
                return x.v.ty
            if isinstance(x, For):
                return s.elem_ty(x.body)
        return None

    def elem_of(s, v, st):
        if isinstance(v, Ref):
            v = st.store[v.cell]
        return s.elem_ty(v) if isinstance(v, Lst) else inner(v.ty) if isinstance(v, Op) else None

    def typed(s, f, ty):
        """the closure with its argument known to be of type ty"""
        if ty is None or not isinstance(f, Clo):
            return f
        return TClo(f, ty)

    def as_list(s, o):
        l = s.e.as_list(o)
        if not l.segs:
            return l
        x = l.segs[0].var
        w = s.wrap(x)
        if w is not x:
            return Lst([For(x, o, Lst([Item(w)]))])
        return l

    def apply(s, f, args, st):
        """[(st, value)]; Ctl ret is resolved"""
        if isinstance(f, Fn):
            return s.call_fn(f.n, args, st)
        if isinstance(f, Op):
            # an enum constructor used as a function
            return [(st, s.construct(str(f.t).strip("'|"), args))]
        if not isinstance(f, Clo):
            raise Unsupported("call of " + type(f).__name__)
        s.depth += 1
        if s.depth > 40:
            s.depth = 0
            raise Unsupported("recursion")
        try:
            outs = [(st, f.env, True)]
            for p, a in zip(f.ps, args):
                outs = [o for n, e, ok in outs for o in s.match(p, a, e, n) if o[2]]
            r = []
            for n, e, _ in outs:
                for n2, v in s.ev(f.body, e, n):
                    if isinstance(v, Ctl) and v.k == "ret":
                        v = v.v
                    r.append((n2, v))
            return r
        finally:
            s.depth -= 1

    def construct(s, name, args):
        last = name.split("::")[-1]
        if last in ("Some", "Ok", "Err"):
            return Con(last, args[0])
        s.ctors[last] = len(args)
        return s.e.app(last, *[s.e.to_u(a) for a in args])

    def pure(s, f, args, st):
        """apply without effects; paths [(cond, value)] relative to st"""
        r = []
        for n, v in s.apply(f, args, st):
            if isinstance(v, Ctl):
                if v.k == "panic":
                    v = Con("panic")
                else:
                    raise Unsupported("control flow out of a closure")
            for c, w in st.store.items():
                if n.store[c] is not w:
                    raise Unsupported("effect in a closure")
            r.append((n.pc[len(st.pc):], v))
        return r

    def map_items(s, l, st, f):
        """each item v is replaced by the list f(v, st) -> [(conds, Lst)]"""
        out = []
        if is_map(l):
            raise Unsupported("a map as a list")
        for g in l.segs:
            if isinstance(g, Item):
                cs = f(g.v, st)
                if len(cs) == 1 and not cs[0][0]:
                    out += cs[0][1].segs
                else:
                    out.append(Case([(s.conj(c), m) for c, m in cs if m.segs]))
            elif isinstance(g, For):
                b = s.map_items(g.body, st, f)
                if b.segs:
                    out.append(For(g.var, g.src, b, g.carry))
            elif isinstance(g, Case):
                cs = []
                for c, m in g.cs:
                    if s.e.sat(st.pc + (c,)):
                        cs.append((c, s.map_items(m, st.assume(c), f)))
                out.append(Case([(c, m) for c, m in cs if m.segs]))
            else:
                b = s.map_items(s.unsplice(g), st, f)
                out += b.segs
        out = [g for g in out if not (isinstance(g, Case) and not g.cs)]
        return Lst(out)

    def unsplice(s, g):
        v = g.v
        return s.as_list(v) if isinstance(v, Op) else v

    def iterate(s, l, f, st, loop=False):
        if is_map(l):
            raise Unsupported("a map as a list")
        outs = [(st, UNIT)]
        for i, g in enumerate(l.segs):
            nx = []
            for n, v in outs:
                if isinstance(v, Ctl):
                    nx.append((n, v))
                    continue
                nx += s.iter_seg(g, f, n, loop, i == len(l.segs) - 1)
            outs = nx
        return [(n, UNIT if isinstance(v, Ctl) and v.k == "brk" else v) for n, v in outs]

    def forever(s, body, env, st):
        """a loop left by break or return"""
        x = Op(s.e.fresh("e"))
        return s.iter_seg(For(x, s.e.const("forever", "implIterator"), Lst([Item(x)])), Clo([{"k": "pwild"}], body, env), st, True)

    def ev_while(s, e, env, st):
        body = {"k": "if", "c": e["c"], "t": e["b"], "e": {"k": "block", "s": [{"k": "expr", "e": {"k": "break", "e": None}, "semi": True}]}}
        return s.forever(body, env, st)

    def ev_loop(s, e, env, st):
        return s.forever(e["b"], env, st)

    def run_body(s, f, v, st, loop):
        r = []
        if loop and isinstance(f, Clo):
            outs = [(st, f.env, True)]
            outs = [o for n, e, ok in outs for o in s.match(f.ps[0], v, e, n) if o[2]]
            for n, e, _ in outs:
                for n2, w in s.ev(f.body, e, n):
                    r.append((n2, UNIT if isinstance(w, Ctl) and w.k == "cont" else w if isinstance(w, Ctl) else UNIT))
        else:
            for n2, w in s.apply(f, [v], st):
                r.append((n2, w if isinstance(w, Ctl) else UNIT))
        return r

    def body_of(s, l, f, st, loop):
        """runs f on every item of a nested list under st; returns merged paths"""
        outs = [(st, UNIT)]
        for g in l.segs:
            nx = []
            for n, v in outs:
                nx += [(n, v)] if isinstance(v, Ctl) else s.merge(n, s.iter_seg(g, f, n, loop, None))
            outs = nx
        return outs

    def iter_seg(s, g, f, st, loop, last=True):
        if isinstance(g, Item):
            return s.merge(st, s.run_body(f, g.v, st, loop))
        if isinstance(g, Case):
            out = []
            rest = []
            for c, m in g.cs:
                if s.e.sat(st.pc + (c,)):
                    out += s.body_of(m, f, st.assume(c), loop)
                rest.append(z3.Not(c))
            rc = s.conj(tuple(rest))
            if s.e.sat(st.pc + (rc,)):
                out.append((st.assume(rc), UNIT))
            return s.merge(st, out)
        if isinstance(g, Splice):
            g = s.unsplice(g).segs[0]
        # a loop: which cells change, from any state in which an iteration can start
        h, carried, outs = st, {}, None
        for _ in range(6):
            outs = s.body_of(g.body, f, h, loop)
            changed = set()
            for n, v in outs:
                if isinstance(v, Ctl) and v.k != "ret" and not (v.k == "brk" and v.v is UNIT and last):
                    raise Unsupported("control flow out of a loop: " + v.k)
                changed |= {c for c, w in h.store.items() if n.store[c] is not w}
            if changed <= set(carried):
                break
            h = st.cp()
            for c in sorted(changed | set(carried)):
                if c not in carried:
                    v = st.store[c]
                    if z3.is_expr(v):
                        x = s.e.fresh("carry", sort=v.sort())
                    elif isinstance(v, bool):
                        x = s.e.fresh("carry", sort=B)
                    elif isinstance(v, (Op, Lst)):
                        x = Op(s.e.fresh("carry"), "HashMap" if is_map(v) else getattr(v, "ty", None))
                    elif isinstance(v, Con):
                        x = Op(s.e.fresh("carry"), "Option" if v.n in ("Some", "None") else "Result")
                    else:
                        raise Unsupported("state carried by a loop: " + type(v).__name__)
                    carried[c] = x
                h.store[c] = Lst((Splice(carried[c]),)) if isinstance(st.store[c], Lst) else carried[c]
        else:
            raise Unsupported("state carried by a loop")
        rets = [(n, v) for n, v in outs if isinstance(v, Ctl) and v.k == "ret"]
        brks = [(n, v) for n, v in outs if isinstance(v, Ctl) and v.k == "brk"]
        if rets:
            if carried or brks:
                raise Unsupported("return out of a loop with effects")
            # the first element for which the body returns
            k = len(st.pc)
            conds = [s.conj(n.pc[k:]) for n, _ in rets]
            guard = z3.Or(conds) if len(conds) > 1 else conds[0]
            ex, w = s.witness(Lst([For(g.var, g.src, Lst([Case([(guard, Lst([Item(g.var)]))])]), g.carry)]))
            m = [(g.var.t, w.t)]
            out = []
            if s.e.sat(st.pc + (ex,)):
                for c, (n, v) in zip(conds, rets):
                    n2 = st.assume(ex).assume(z3.substitute(c, *m))
                    if s.e.sat(n2.pc):
                        out.append((n2, Ctl("ret", s.e.subst(v.v, m))))
            if s.e.sat(st.pc + (z3.Not(ex),)):
                out.append((st.assume(z3.Not(ex)), UNIT))
            return out
        k = len(h.pc)
        steps, adds = {}, {}
        for c in sorted(carried):
            steps[c] = (carried[c], st.store[c], [(s.conj(n.pc[k:]), n.store[c]) for n, _ in outs])
            if isinstance(st.store[c], Lst):
                old, cs = h.store[c].segs, []
                for n, _ in outs:
                    new = n.store[c]
                    if not isinstance(new, Lst) or not new.segs or new.segs[0] is not old[0]:
                        cs = None
                        break
                    if new.segs[1:]:
                        cs.append((s.conj(n.pc[k:]), Lst(new.segs[1:])))
                if cs is not None:
                    adds[c] = cs[0][1] if len(cs) == 1 and z3.is_true(cs[0][0]) else Lst([Case(cs)])
        names = {(x.t if isinstance(x, Op) else x).decl().name(): c for c, x in carried.items()}
        if brks:
            # the loop runs until the condition of a break holds
            carried[0] = s.e.fresh("stop", sort=B)
            steps[0] = (carried[0], z3.BoolVal(False), [(s.conj(n.pc[k:]), z3.BoolVal(isinstance(v, Ctl))) for n, v in outs])

        def needs(start):
            """the carried state some values depend on"""
            todo, seen = list(start), {0} if brks else set()
            if brks:
                todo += [y for y, _ in steps[0][2]]
            while todo:
                for y in s.e.free(todo.pop()):
                    c = names.get(y.decl().name())
                    if c is not None and c not in seen:
                        seen.add(c)
                        for cond, v in steps[c][2]:
                            todo += [cond, v]
            return [steps[c] for c in sorted(seen)]

        if brks and not any(c for c in carried):
            return [(st, UNIT)]
        m = st.cp()
        for c, v in ((c, st.store[c]) for c in sorted(carried) if c):
            if c in adds:
                body = adds[c]
                m.store[c] = Lst(v.segs + (s.but_first(For(g.var, g.src, body, needs([body]))),)) if body.segs else v
                continue
            x = carried[c]
            if z3.is_expr(x) and x.sort() == B and not brks:
                # a flag that is only ever set (or cleared): whether there is an element that does it
                nxt = z3.Or([z3.And(cond, s.truth(w)) for cond, w in steps[c][2]])
                f1, f0 = [z3.substitute(nxt, (x, z3.BoolVal(b))) for b in (True, False)]
                up, down = s.e.valid((), f1), not s.e.sat((f0,))
                hit = z3.simplify(f0 if up else z3.Not(f1))
                if up != down and not needs([hit]):
                    ex = s.exists(Lst([For(g.var, g.src, Lst([Case([(hit, Lst([Item(g.var)]))])]))]), st)
                    v = s.truth(v)
                    m.store[c] = z3.simplify(z3.Or(v, ex) if up else z3.And(v, z3.Not(ex)))
                    continue
            own = [y for cond, w in steps[c][2] for y in (cond, w)]
            carry = [steps[c]] + [y for y in needs(own) if y is not steps[c]]
            t = s.e.to_u(Lst([For(g.var, g.src, Lst([Item(x)]), carry)]))
            r = s.e.app("after_loop", t, ty=x.ty if isinstance(x, Op) else None)
            if isinstance(v, Lst):
                if any(s.e.strlist(w) for _, w in steps[c][2]) or s.e.strlist(v):
                    m.store[c] = Lst((Ch(Op(r.t, "str")),))
                else:
                    m.store[c] = Lst((Splice(Op(r.t, "implIterator")),))
            else:
                m.store[c] = r if isinstance(x, Op) else s.e.u2b(r.t) if x.sort() == B else s.e.u2i(r.t)
        return [(m, UNIT)]

    def but_first(s, f):
        """a loop that does nothing until a flag is set by the first element of some kind: a loop over the others of that kind"""
        given = f
        if not f.carry and isinstance(f.src, Op) and z3.is_app(f.src.t) and f.src.t.decl().name() == "enumerate":
            k, y = s.e.fresh("carry", sort=I), Op(s.e.fresh("e"), inner(f.src.ty).split(",", 1)[-1].rstrip(")"))
            num, el = s.e.app("#0", f.var.t), s.e.app("#1", f.var.t)
            m = [(s.e.u2i(num.t), k), (el.t, y.t)]
            f = For(y, Op(f.src.t.arg(0), f"implIterator<Item={y.ty}>"), s.e.subst(f.body, m), [(k, z3.IntVal(0), [(z3.BoolVal(True), k + 1)])])
            if any(z.eq(given.var.t) for t in s.e.terms(f.body) for z in subterms(t)):
                return given
        f = s.but_first_(f)
        return given if f.carry else f

    def but_first_(s, f):
        if len(f.carry) != 1 or not z3.is_expr(f.carry[0][0]):
            return f
        x, init, nx = f.carry[0]
        count = x.sort() == I
        if x.sort() != B and not count:
            return f
        start = z3.simplify((s.num if count else s.truth)(init))
        zero, one = (z3.IntVal(0), z3.IntVal(1)) if count else (start, z3.simplify(z3.Not(start)))
        if not start.eq(zero) or not count and not (z3.is_true(start) or z3.is_false(start)):
            return f
        seen = x >= 1 if count else x == one
        nxt = [(c, s.num(w) >= 1 if count else s.truth(w) == one) for c, w in nx]
        later = z3.Or([z3.And(c, w) for c, w in nxt])
        off = z3.simplify(z3.substitute(later, (x, zero)))
        if not s.e.valid((seen,), later) or count and not s.e.valid((), z3.substitute(z3.And([z3.Implies(c, s.num(w) >= 0) for c, w in nx]), (x, zero))):
            return f
        for c, y in s.e.flat(f.body):
            if s.e.sat([z3.substitute(z, (x, zero)) for z in c]) or s.e.sat([seen, *c, z3.Not(off)]):
                return f
            if not all(s.e.valid((seen,), z == z3.substitute(z, (x, one))) for z in c) or any(z.eq(x) for t in s.e.terms(Lst([y])) for z in subterms(t)):
                return f
        l = Lst([For(f.var, f.src, Lst([Item(f.var)] if z3.is_true(off) else [Case([(off, Lst([Item(f.var)]))])]))])
        rest = s.tail(l)

        def under(l):
            """the body for an element of that kind"""
            r = []
            for y in l.segs:
                if isinstance(y, Case):
                    cs = [(c, m) for c, m in y.cs if s.e.sat((off, c))]
                    if len(cs) == 1 and s.e.valid((off,), cs[0][0]):
                        r += under(cs[0][1]).segs
                        continue
                    y = Case([(c, under(m)) for c, m in cs])
                r.append(y)
            return Lst(r)
        return For(f.var, rest, under(s.e.subst(f.body, [(x, one)])))

    # ---- searches
    def witness(s, l):
        """(exists, element) for a list For x in src: Case guard -> x"""
        def mk(fv):
            ty = l.segs[0].var.ty if len(l.segs) == 1 and isinstance(l.segs[0], For) else None
            fe, fw = s.e.fun("ex", fv, B), s.e.fun("w", fv)
            if len(l.segs) == 1 and isinstance(l.segs[0], For) and not l.segs[0].carry:
                f = l.segs[0]
                at = s.e.flat(f.body)
                if all(isinstance(x, Item) for _, x in at) and at:
                    gs = [s.conj(g) for g, _ in at]
                    ax = z3.Implies(fe(*fv), z3.substitute(z3.Or(gs) if len(gs) > 1 else gs[0], (f.var.t, fw(*fv))))
                    if not fv:
                        s.e.axiom(ax)
                    else:
                        for x in (fe, fw):
                            s.e.wit[x.name()] = (fv, ax)
            return lambda *q: (fe(*q), Op(fw(*q), ty))
        return s.e.lookup("search", l, mk)

    def first(s, l, st):
        """[(st, Con)]: the first element"""
        segs = l.segs
        if not segs:
            return [(st, NONE)]
        g = segs[0]
        rest = Lst(segs[1:])
        if isinstance(g, Item):
            return [(st, Con("Some", g.v))]
        if isinstance(g, Case):
            out = []
            neg = []
            for c, m in g.cs:
                neg.append(z3.Not(c))
                if s.e.sat(st.pc + (c,)):
                    out += s.first(Lst(m.segs + rest.segs), st.assume(c))
            nc = s.conj(tuple(neg))
            if s.e.sat(st.pc + (nc,)):
                out += s.first(rest, st.assume(nc))
            return out
        if isinstance(g, For):
            at = s.e.flat(g.body)
            if all(isinstance(x, Item) for _, x in at) and not g.carry:
                gs = [s.conj(c) for c, _ in at]
                body = Lst([Item(g.var)]) if any(not c for c, _ in at) else Lst([Case([(z3.Or(gs) if len(gs) > 1 else gs[0], Lst([Item(g.var)]))])])
                ex, w = s.witness(Lst([For(g.var, g.src, body)]))
                m = [(g.var.t, w.t)]
                out = []
                if s.e.sat(st.pc + (ex,)):
                    prev = []
                    for (c, x), gc in zip(at, gs):
                        cc = z3.substitute(gc, *m)
                        n = S(st.pc + (ex,) + tuple(prev) + ((cc,) if not z3.is_true(cc) else ()), dict(st.store))
                        if s.e.sat(n.pc):
                            out.append((n, Con("Some", s.e.subst(x.v, m))))
                        prev.append(z3.Not(cc))
                if s.e.sat(st.pc + (z3.Not(ex),)):
                    out += s.first(rest, st.assume(z3.Not(ex)))
                return out
            t = s.e.to_u(Lst([g]))
            ex = s.e.b("nonempty", t)
            out = []
            for n, b in s.fork(st, ex):
                out += [(n, Con("Some", s.e.app("first", t)))] if b else s.first(rest, n)
            return out
        return s.first(Lst(s.unsplice(g).segs + rest.segs), st)

    def last(s, l, st):
        """[(st, Con)]: the last element; of a list of one element it is the first"""
        if l.segs and isinstance(l.segs[-1], Item):
            return [(st, Con("Some", l.segs[-1].v))]
        if all(isinstance(g, Item) for g in l.segs):
            return [(st, NONE)]
        ty = s.elem_ty(l)
        x = s.wrap(s.e.app("last_of", s.e.to_u(l), ty=ty))
        more = s.exists(s.to_list(s.tail(l), st), st)
        out = []
        for n, c in s.first(l, st):
            if c.n != "Some":
                out.append((n, c))
                continue
            if s.e.sat(n.pc + (more,)):
                out.append((n.assume(more), Con("Some", x)))
            if s.e.sat(n.pc + (z3.Not(more),)):
                out.append((n.assume(z3.Not(more)), c))
        return out

    def tail(s, l):
        """all but the first element"""
        if not l.segs:
            return l
        if isinstance(l.segs[0], Item):
            return Lst(l.segs[1:])
        ty = s.elem_ty(l)
        return Op(s.e.app("tail", s.e.to_u(l)).t, f"implIterator<Item={ty}>" if ty else "implIterator")

    def exists(s, l, st):
        """a formula: the list has an element"""
        fs = []
        for c, x in s.e.flat(l):
            g = s.conj(c)
            if isinstance(x, Ch):
                t = s.e.text(x.v)
                if t != "":
                    fs.append(g if t else z3.And(g, s.e.b("nonempty", x.v.t)))
            elif isinstance(x, Item):
                fs.append(g)
            elif isinstance(x, For):
                at = s.e.flat(x.body)
                if all(isinstance(y, Item) and (not isinstance(y, Ch) or s.e.text(y.v)) for _, y in at) and not x.carry:
                    gs = [s.conj(k) for k, _ in at]
                    body = Lst([Item(x.var)]) if any(not k for k, _ in at) else Lst([Case([(z3.Or(gs) if len(gs) > 1 else gs[0], Lst([Item(x.var)]))])])
                    ex, _ = s.witness(Lst([For(x.var, x.src, body)]))
                else:
                    ex = s.e.b("nonempty", s.e.to_u(Lst([x])))
                fs.append(z3.And(g, ex))
            else:
                fs.append(z3.And(g, s.e.b("nonempty", s.e.to_u(x.v))))
        return z3.BoolVal(False) if not fs else fs[0] if len(fs) == 1 else z3.Or(fs)

    # ---- calls
    def ev_call(s, e, env, st):
        f = e["f"]
        r = []
        if f["k"] != "path":
            for n, fv in s.ev(f, env, st):
                for n2, vs in s.seq(e["a"], env, n):
                    r += s.apply(fv, vs, n2)
            return r
        name = f["p"]
        for n, vs in s.seq(e["a"], env, st):
            if vs and isinstance(vs[-1], Ctl):
                r.append((n, vs[-1]))
            elif name in env:
                r += s.apply(n.store[env[name]], vs, n)
            else:
                g = re.search(r"::<(.*)>$", f.get("t") or "")
                r += s.call_fn(name, vs, n, g and g.group(1))
        return r

    def label_of(s, name, g=None):
        """the term of a function that isn't ours: qualified by its type, unless it is a method called as a function"""
        parts = name.split("::")
        last = parts[-1]
        if len(parts) > 1 and parts[-2][:1].isupper() and (last not in BUILTIN or last in ("cast", "can_cast")) and last not in IDENT_M and last not in OPT_M:
            last = parts[-2] + "::" + last
        return last + (f"::<{g}>" if g else "")

    def call_fn(s, name, args, st, g=None):
        last = name.split("::")[-1]
        if name in ("Some", "Ok", "Err"):
            return [(st, Con(name, args[0]))]
        if name.split("::")[-2:] in (["mem", "replace"], ["mem", "take"]) and isinstance(args[0], Ref):
            n, c = st.cp(), args[0].cell
            v = n.store[c]
            n.store[c] = args[1] if last == "replace" else Lst() if isinstance(v, Lst) else z3.IntVal(0) if z3.is_expr(v) and v.sort() == I else z3.BoolVal(False) if z3.is_expr(v) else s.e.app("default")
            return [(n, v)]
        if last in ("from", "into", "from_iter") and len(args) == 1:
            v = args[0]
            if isinstance(v, (Lst,)):
                return [(st, v)]
            return s.method(v, "into", [], st, None)
        if last in ("clone", "to_string", "to_owned", "as_ref", "Rc::new", "Box::new") or name in ("Rc::new", "Box::new", "Arc::new", "iter::once", "Cow::from", "Cow::Borrowed"):
            if name == "iter::once":
                return [(st, Lst([Item(args[0])]))]
            return [(st, args[0])]
        if name in ("iter::empty",):
            return [(st, Lst())]
        if re.match(r"((Fx)?HashMap|BTreeMap|IndexMap)(::<.*>)?::(new|with_capacity|default|with_capacity_and_hasher)", name):
            return [(st, Lst([MARK]))]
        if re.match(r"(Vec|SmallVec|VecDeque|HashSet|FxHashSet|String)(::<.*>)?::(new|with_capacity|default|with_capacity_and_hasher)", name):
            return [(st, Lst())]
        if last == "default":
            return [(st, s.e.app("default"))]
        if last == "new" and name.split("::")[-2:-1] and name.split("::")[-2] in NEW and len(args) == len(NEW[name.split("::")[-2]]):
            return [(st, Rec(name.split("::")[-2], dict(zip(NEW[name.split("::")[-2]], args))))]
        if last in ("Some", "identity"):
            return [(st, args[0])]
        f = s.spec_fns.get(last) or s.spec_fns.get(name.replace("::", "_").lower()) or s.find_fn(name)
        if f is not None and not any(re.match(r"&('\w+)?mut", p["ty"].replace(" ", "")) for p in f["i"]):
            args = [st.store[a.cell] if isinstance(a, Ref) and not isinstance(st.store[a.cell], Lst) else a for a in args]
        if f is not None and not (s.is_opaque(f) and last not in s.spec_fns):
            return s.inline(f, args, st)
        if f is not None and last not in s.spec_fns:
            return s.opaque_call(s.label(f), args, st, norm_ty(f["o"]), True)
        if last[:1].isupper():
            return [(st, s.construct(name, args))]
        l = s.label_of(name, g)
        ty = None
        if last == "cast" and "::" in l:
            ty = f"Option<{l.split('::')[0]}>"
        elif g and last in ("child", "children"):
            ty = f"Option<{g}>" if last == "child" else f"implIterator<Item={g}>"
        return s.opaque_call(l, args, st, ty or s.ret_ty(last))

    def find_fn(s, name):
        last = name.split("::")[-1]
        if last in s.multi:
            parts = name.split("::")
            if len(parts) > 1:
                q = [i for (m, o, n), i in s.qual.items() if n == last and (o == parts[-2] or m.endswith("/" + parts[-2] + ".rs"))]
                if len(q) == 1:
                    return q[0]
            q = [i for (m, o, n), i in s.qual.items() if n == last and m == getattr(s, "cur_mod", None)]
            return q[0] if len(q) == 1 else None
        return s.fns.get(last)

    def inline(s, f, args, st):
        s.depth += 1
        if s.depth > 25 or f["n"] in getattr(s, "stack", ()):
            s.depth -= 1
            if f["n"] in getattr(s, "stack", ()):
                return s.opaque_call(f["n"], args, st, None, True)
            raise Unsupported("recursion in " + f["n"])
        old = getattr(s, "stack", ())
        s.stack = old + (f["n"],)
        try:
            args = list(args)
            for i, (p, a) in enumerate(zip(f["i"], args)):
                if isinstance(a, Op) and not a.ty:
                    args[i] = Op(a.t, norm_ty(p["ty"]))
            r = s.apply(Clo([p["p"] for p in f["i"]], f["b"], {}), args, st)
            ty = norm_ty(f["o"])
            return [(n, Op(v.t, ty) if isinstance(v, Op) and not v.ty and cat(ty) else v) for n, v in r]
        finally:
            s.stack = old
            s.depth -= 1

    def clo_list(s, f, st):
        """a closure as the list of its values over all arguments: closures are equal when they agree on every argument"""
        xs = [Op(s.e.fresh("e"), getattr(f, "ty", None)) for _ in f.ps]
        cs = []
        for c, v in s.pure(f, xs, st):
            cs.append((s.conj(c), Lst([Item(v)])))
        l = cs[0][1] if len(cs) == 1 and z3.is_true(cs[0][0]) else Lst([Case(cs)])
        for i, x in enumerate(reversed(xs)):
            l = Lst([For(x, s.e.const(f"args{len(xs) - i}"), l)])
        if not xs:
            l = Lst([For(Op(s.e.fresh("e")), s.e.const("args0"), l)])
        return l

    def opaque_call(s, name, args, st, ty=None, appends=False):
        """a function under contract or of a dependency: a term; lists given by &mut get its additions"""
        args = [s.clo_list(a, st) if isinstance(a, Clo) else a for a in args]
        muts = [a for a in args if isinstance(a, Ref)]
        if muts and appends:
            st = st.cp()
            for a in muts:
                v = st.store[a.cell]
                if isinstance(v, Op) and cat(v.ty) == "iter" and re.match("Vec|SmallVec", v.ty):
                    st.store[a.cell] = Lst((Splice(v),))
        us = [s.e.to_u(a) if not isinstance(a, Ref) else s.e.const("&mut").t if appends and isinstance(st.store[a.cell], Lst) else s.e.to_u(st.store[a.cell]) for a in args]
        o = s.e.app(name, *us, ty=ty if cat(ty) else s.ret_ty(name) or ty)
        if muts:
            n = st.cp()
            for i, a in enumerate(muts):
                v = n.store[a.cell]
                if not isinstance(v, Lst) or not appends:
                    x = Op(s.e.app(f"mut{i}", o.t).t, v.ty if isinstance(v, Op) else None)
                    if isinstance(v, Lst):
                        if is_map(v):
                            raise Unsupported("a map given away")
                        ty = s.elem_ty(v)
                        n.store[a.cell] = Lst((Ch(Op(x.t, "str")),)) if s.e.strlist(v) else s.as_list(Op(x.t, f"implIterator<Item={ty}>" if ty else "implIterator"))
                        continue
                    n.store[a.cell] = x if isinstance(v, (Op, Rec)) else s.e.u2i(x.t) if z3.is_expr(v) and v.sort() == I else s.e.u2b(x.t)
                    continue
                n.store[a.cell] = Lst(v.segs + (Splice(o if len(muts) == 1 else s.e.app(f"mut{i}", o.t)),))
            return [(n, s.wrap(o))]
        return [(st, s.wrap(o))]

    MUT = {"reserve", "shrink_to_fit", "push", "extend", "append", "insert", "push_str", "push_back", "clear", "truncate", "pop", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by",
           "sort_unstable_by_key", "reverse", "retain", "dedup", "drain", "remove", "swap", "entry", "push_front", "pop_front", "pop_back", "write_str", "write_char", "insert_str", "next"}

    def ev_mcall(s, e, env, st):
        m, r_ = e["m"], e["r"]
        if m in s.MUT:
            try:
                c = s.place(r_, env, st)
                v = st.store[c]
            except Unsupported:
                v = None
            if isinstance(v, Op) and m != "next" and m not in ("remove", "insert", "entry") and v.ty is None:
                raise Unsupported(f"{m} of a value of unknown type")
            if isinstance(v, Op) and s.e.is_str(v) and m in ("push", "push_str", "insert", "insert_str", "write_str", "write_char"):
                st = st.cp()
                v = st.store[c] = Lst(s.e.chunks(v))
            elif isinstance(v, Op) and s.e.is_str(v) and m in ("clear", "truncate", "pop", "retain", "drain", "remove"):
                raise Unsupported(f"{m} of a string")
            elif isinstance(v, Op) and cat(v.ty) == "iter" and m != "next" and v.ty != "HashMap":
                st = st.cp()
                v = st.store[c] = s.as_list(v)
            if isinstance(v, Lst) or m == "next" and isinstance(v, (Op, Lst)):
                out = []
                for n, vs in s.seq(e["a"], env, st):
                    if vs and isinstance(vs[-1], Ctl):
                        out.append((n, vs[-1]))
                    else:
                        out += s.mutate(c, m, vs, n)
                return out
        own = r_["k"] == "path" and r_["p"] == "self" and "self" in env and isinstance(st.store[env["self"]], Ref)
        if (m in s.mutself or own and m not in s.rets and m not in s.fns) and m not in s.refself and m not in BUILTIN and m not in IDENT_M:
            try:
                c = s.place(r_, env, st)
            except Unsupported:
                c = None
            v = c and st.store[c]
            g = s.find_fn(m) if isinstance(v, (Op, Rec)) else None
            if g is not None and g["i"] and g["i"][0]["p"].get("n") == "self" and not s.is_opaque(g):
                # ours: as if written here
                out = []
                for n, vs in s.seq(e["a"], env, st):
                    out += [(n, vs[-1])] if vs and isinstance(vs[-1], Ctl) else s.inline(g, [Ref(c)] + vs, n)
                return out
            if isinstance(v, Op):
                # a method that changes its receiver
                out = []
                for n, vs in s.seq(e["a"], env, st):
                    if vs and isinstance(vs[-1], Ctl):
                        out.append((n, vs[-1]))
                        continue
                    n = n.cp()
                    us = [s.e.to_u(n.store[c])] + [s.e.to_u(x) for x in vs]
                    ty = n.store[c].ty
                    n.store[c] = Op(s.e.app(m + "!", *us).t, ty)
                    out.append((n, s.wrap(s.e.app(m, *us, ty=s.ret_ty(m)))))
                return out
            if c is None and r_["k"] == "field":
                # of a field of a variable
                try:
                    c = s.place(r_["e"], env, st)
                except Unsupported:
                    c = None
                if c is not None and isinstance(st.store[c], (Op, Rec)):
                    out = []
                    for n, vs in s.seq(e["a"], env, st):
                        if vs and isinstance(vs[-1], Ctl):
                            out.append((n, vs[-1]))
                            continue
                        v = s.field(n.store[c], r_["n"])
                        us = [s.e.to_u(v)] + [s.e.to_u(x) for x in vs]
                        n = s.store(r_, Op(s.e.app(m + "!", *us).t, v.ty if isinstance(v, Op) else None), env, n)
                        out.append((n, s.wrap(s.e.app(m, *us, ty=s.ret_ty(m)))))
                    return out
        if m in ("push", "extend", "insert", "push_back") and r_["k"] == "mcall" and r_["m"] in ("or_insert_with", "or_default", "or_insert") and r_["r"]["k"] == "mcall" and r_["r"]["m"] == "entry":
            return s.entry(e, env, st)
        if m == "collect" and r_["k"] == "mcall" and r_["m"] in ("map", "filter_map", "flat_map"):
            try:
                return s.ev_mcall2(e, env, st)
            except Unsupported as x:
                if str(x) != "effect in a closure":
                    raise
            return s.collect_loop(r_, env, st)
        return s.ev_mcall2(e, env, st)

    def entry(s, e, env, st):
        """map.entry(k).or_default().push(v): the insertion of (k, v); a key without a value is noted as well"""
        en = e["r"]["r"]
        c = s.place(en["r"], env, st)
        if not is_map(st.store[c]):
            raise Unsupported("entry of something that is no map")
        if any(x["k"] not in ("closure", "path") for x in e["r"]["a"]) or \
                any(x["k"] == "closure" and not (x["e"]["k"] == "call" and x["e"]["f"].get("p", "").split("::")[-1] in ("with_capacity", "new", "default")) for x in e["r"]["a"]):
            raise Unsupported("entry with an initial value")
        out = []
        for n, vs in s.seq(en["a"] + e["a"], env, st):
            if isinstance(vs[-1], Ctl):
                out.append((n, vs[-1]))
                continue
            k, v = vs
            n = n.cp()
            if e["m"] == "extend":
                l = s.map_items(s.to_list(v, n), n, lambda x, _: [((), Lst([Item(Tup([k, x]))]))])
                n.store[c] = Lst(n.store[c].segs + (Item(Tup([k])),) + l.segs)
            else:
                n.store[c] = Lst(n.store[c].segs + (Item(Tup([k, v])),))
            out.append((n, UNIT))
        return out

    def collect_loop(s, e, env, st):
        """xs.map(f).collect() where f has effects: f runs once per element, in order"""
        r = []
        for n, v in s.ev(e["r"], env, st):
            if isinstance(v, Ctl):
                r.append((n, v))
                continue
            for n2, fs in s.seq(e["a"], env, n):
                f = fs[0]
                n2 = n2.cp()
                s.cell += 1
                cell = s.cell
                n2.store[cell] = Lst()

                def step(x, q):
                    outs = []
                    for n3, y in s.apply(f, [x], q):
                        if isinstance(y, Ctl):
                            outs.append((n3, y))
                            continue
                        for n4, l in ([(n3, Lst([Item(y)]))] if e["m"] == "map" else [(n5, Lst([Item(k.a[0])] if k.a and k.n != "Err" else [])) for n5, k in s.opt_cases(y, n3)]
                                      if e["m"] == "filter_map" or isinstance(y, Con) else [(n3, s.to_list(y, n3))]):
                            n4 = n4.cp()
                            n4.store[cell] = Lst(n4.store[cell].segs + l.segs)
                            outs.append((n4, UNIT))
                    return outs
                for n3, w in s.stepwise(s.to_list(v, n2), step, n2):
                    r.append((n3, w if isinstance(w, Ctl) else n3.store[cell]))
        return r

    def stepwise(s, l, step, st):
        old = s.run_body
        s.run_body = lambda f_, v, st2, loop: step(v, st2) if f_ is step else old(f_, v, st2, loop)
        try:
            return s.iterate(l, step, st)
        finally:
            s.run_body = old

    def ev_mcall2(s, e, env, st):
        m, r_ = e["m"], e["r"]
        out = []
        for n, v in s.ev(r_, env, st):
            if isinstance(v, Ctl):
                out.append((n, v))
                continue
            if isinstance(v, Ref):
                v = n.store[v.cell]
            for n2, vs in s.seq(e["a"], env, n):
                if vs and isinstance(vs[-1], Ctl):
                    out.append((n2, vs[-1]))
                else:
                    out += s.method(v, m, vs, n2, e)
        return out

    def mutate(s, c, m, a, st):
        n = st.cp()
        v = n.store[c]
        if m in ("push_str", "write_str", "write_char") or m == "push" and (s.e.strlist(v) or s.e.is_str(a[0]) and a[0].ty == "char"):
            n.store[c] = Lst(v.segs + s.e.chunks(a[0]))
            return [(n, UNIT if m[0] == "p" else Con("Ok", UNIT))]
        if m == "insert_str" or m == "insert" and (s.e.strlist(v) or s.e.is_str(a[1]) and a[1].ty == "char"):
            if not (z3.is_expr(a[0]) and z3.is_int_value(a[0]) and a[0].as_long() == 0):
                raise Unsupported("insertion into a string")
            n.store[c] = Lst(s.e.chunks(a[1]) + v.segs)
            return [(n, UNIT)]
        if m in ("push", "push_back"):
            x = a[0]
            n.store[c] = Lst(v.segs + (Item(x),))
            return [(n, UNIT)]
        if m in ("extend", "append"):
            x = a[0]
            if isinstance(x, Ref):
                src = x.cell
                x = n.store[src]
                n.store[src] = Lst()
            n.store[c] = Lst(v.segs + s.to_list(x, n).segs)
            return [(n, UNIT)]
        if m == "next":
            l = s.to_list(v, n)
            out = []
            for n2, x in s.first(l, n):
                n2 = n2.cp()
                n2.store[c] = s.tail(l)
                out.append((n2, x))
            return out
        if m in ("entry",):
            raise Unsupported("Vec::" + m)
        if is_map(v):
            if m != "insert":
                raise Unsupported("map method " + m)
            n.store[c] = Lst(v.segs + (Item(Tup([s.e.const("insert"), a[0], a[1]])),))
            return [(n, s.e.app("insert?", s.e.to_u(v), s.e.to_u(a[0]), ty="Option"))]
        if m in ("reserve", "shrink_to_fit"):
            return [(n, UNIT)]
        if m == "clear":
            n.store[c] = Lst()
            return [(n, UNIT)]
        us = [s.e.to_u(v)] + [s.e.to_u(s.clo_list(x, st) if isinstance(x, Clo) else st.store[x.cell] if isinstance(x, Ref) else x) for x in a]
        ty = s.elem_ty(v)
        n.store[c] = s.as_list(s.e.app(m + "!", *us, ty=f"implIterator<Item={ty}>" if ty else "implIterator"))
        if m in ("pop", "pop_front", "pop_back"):
            ty = "Option"
        elif m in ("drain",):
            ty = "implIterator"
        else:
            ty = None
        return [(n, s.e.app(m + "?", *us, ty=ty))]

    def method(s, v, m, a, st, e):
        if m in ("as_token", "as_node"):
            m = "into" + m[2:]
        if m in IDENT_M and not a:
            if m == "to_string" and isinstance(v, Op):
                t = s.e.text(v)
                return [(st, s.e.const("s:" + t, "str") if t else Op(v.t, "str") if v.ty == "char" else v)]
            return [(st, v)]
        if m == "into" and (isinstance(v, Op) and (cat(v.ty) == "str" or s.e.text(v) is not None) or s.e.strlist(v)):
            return [(st, v)]
        if isinstance(v, bool):
            v = z3.BoolVal(v)
        # truth values
        if z3.is_expr(v) and v.sort() == B:
            if m in ("then", "then_some"):
                r = []
                for n, b in s.fork(st, v):
                    if not b:
                        r.append((n, NONE))
                    elif m == "then_some":
                        r.append((n, Con("Some", a[0])))
                    else:
                        r += [(n2, x if isinstance(x, Ctl) else Con("Some", x)) for n2, x in s.apply(a[0], [], n)]
                return r
            if m == "not":
                return [(st, z3.Not(v))]
        if z3.is_expr(v) and v.sort() == I:
            if m in ("into", "try_into"):
                return [(st, v)]
            if m == "saturating_sub":
                x = s.num(a[0])
                return [(st, z3.If(v >= x, v - x, z3.IntVal(0)))]
            if m == "checked_sub":
                x = s.num(a[0])
                return [(n, Con("Some", v - x) if y else NONE) for n, y in s.fork(st, v >= x)]
            if m in ("min", "max"):
                x = s.num(a[0])
                return [(st, z3.If(v <= x, v, x) if m == "min" else z3.If(v >= x, v, x))]
            return s.opaque_call(m, [v] + a, st)
        if isinstance(v, Op):
            c = cat(v.ty)
            if c in ("opt", "res") and m in OPT_M:
                r = []
                for n, x in s.opt_cases(v, st):
                    r += s.method(x, m, a, n, e)
                return s.join_bools(st, r)
            if c == "iter" or m in ("iter", "into_iter", "iter_mut"):
                if m in ("len", "is_empty", "contains", "get", "first", "join", "intersection", "difference", "union", "cmp", "partial_cmp") and c == "iter" and not any(isinstance(x, Clo) for x in a):
                    if m == "is_empty":
                        return [(st, z3.Not(s.exists(s.as_list(v), st)))]
                    if m == "contains":
                        l = s.as_list(v)
                        return [(st, s.exists(s.map_items(l, st, lambda x, n: [((s.equal(x, a[0]),), Lst([Item(x)]))]), st))]
                    return s.opaque_call(m, [v] + a, st)
                return s.list_method(s.as_list(v), m, a, st, e)
            if any(isinstance(x, Clo) for x in a) and s.own_method(m, a) is None:
                # of whatever type: a function of the receiver and of the closures, which must be free of effects
                return s.opaque_call(m, [v] + a, st)
            if m == "matches" and len(a) == 1 and isinstance(a[0], Op) and a[0].ty == "char":
                # the occurrences of a character
                return [(n, s.map_items(s.as_list(l), n, lambda x, n: [((s.equal(x, a[0]),), Lst([Item(x)]))])) for n, l in s.method(v, "chars", [], st, e)]
            f = s.own_method(m, a)
            if f is not None:
                if s.is_opaque(f) and m not in s.spec_fns:
                    return s.opaque_call(s.label(f), [v] + a, st, norm_ty(f["o"]), True)
                return s.inline(f, [v] + a, st)
            return s.opaque_call(m, [v] + a, st)
        if isinstance(v, Con) and v.n in ("Some", "None", "Ok", "Err"):
            return s.opt_method(v, m, a, st)
        if isinstance(v, Lst):
            return s.list_method(v, m, a, st, e)
        if isinstance(v, Rec) and not v.n.startswith("Range"):
            f = s.own_method(m, a)
            if f is not None and not (s.is_opaque(f) and m not in s.spec_fns):
                return s.inline(f, [v] + a, st)
        if isinstance(v, Rec) and v.n.startswith("Range"):
            if m == "contains":
                x = s.num(a[0])
                c = []
                if "lo" in v.f:
                    c.append(x >= s.num(v.f["lo"]))
                if "hi" in v.f:
                    c.append(x <= s.num(v.f["hi"]) if v.n == "RangeIncl" else x < s.num(v.f["hi"]))
                return [(st, z3.And(c))]
            return s.list_method(s.to_list(v, st), m, a, st, e)
        if m in ("into",):
            return [(st, v)]
        if any(isinstance(x, Clo) for x in a):
            raise Unsupported(f"method {m} of {type(v).__name__}")
        return s.opaque_call(m, [v] + a, st)

    def own_method(s, m, a):
        f = s.spec_fns.get(m)
        if f is None and m not in BUILTIN:
            f = s.find_fn(m) if m in s.fns and m not in s.multi else None
            if f is not None and (not f["i"] or f["i"][0]["p"].get("n") != "self"):
                f = None
        return f if f is None or len(f["i"]) == len(a) + 1 else None

    def opt_method(s, v, m, a, st):
        good = v.n in ("Some", "Ok")
        opt = v.n in ("Some", "None")
        x = v.a[0] if v.a else None
        if m == "map":
            return [(n, y if isinstance(y, Ctl) else Con(v.n, y)) for n, y in s.apply(a[0], [x], st)] if good else [(st, v)]
        if m == "and_then":
            return s.apply(a[0], [x], st) if good else [(st, v)]
        if m in ("is_some", "is_ok"):
            return [(st, z3.BoolVal(good))]
        if m in ("is_none", "is_err"):
            return [(st, z3.BoolVal(not good))]
        if m == "is_some_and" or m == "is_ok_and":
            return s.apply(a[0], [x], st) if good else [(st, z3.BoolVal(False))]
        if m == "is_none_or":
            return s.apply(a[0], [x], st) if good else [(st, z3.BoolVal(True))]
        if m == "unwrap_or_default":
            return [(st, x if good else s.e.app("default"))]
        if m == "unwrap_or":
            return [(st, x if good else a[0])]
        if m == "unwrap_or_else":
            return [(st, x)] if good else s.apply(a[0], [] if opt else [x], st)
        if m == "or_else":
            return [(st, v)] if good else s.apply(a[0], [] if opt else [x], st)
        if m == "or":
            return [(st, v if good else a[0])]
        if m == "and":
            return [(st, a[0] if good else v)]
        if m == "inspect":
            return [(n, v) for n, _ in s.apply(a[0], [x], st)] if good else [(st, v)]
        if m == "insert" or m == "take" or m == "replace":
            raise Unsupported("option method " + m)
        if m == "ok_or_else":
            return [(st, Con("Ok", x))] if good else [(n, Con("Err", y)) for n, y in s.apply(a[0], [], st)]
        if m == "ok_or":
            return [(st, Con("Ok", x) if good else Con("Err", a[0]))]
        if m == "ok":
            return [(st, Con("Some", x) if good else NONE)]
        if m == "map_err":
            return [(st, v)] if good else [(n, Con("Err", y)) for n, y in s.apply(a[0], [x], st)]
        if m == "filter":
            if not good:
                return [(st, v)]
            r = []
            for n, b in s.apply(a[0], [x], st):
                r += [(n2, v if t else NONE) for n2, t in s.fork(n, s.truth(b))]
            return r
        if m == "zip":
            if not good:
                return [(st, NONE)]
            return [(n, Con("Some", Tup([x, c.a[0]])) if c.n == "Some" else NONE) for n, c in s.opt_cases(a[0], st)]
        if m == "flatten":
            return s.opt_cases(x, st) if good else [(st, v)]
        if m in ("unwrap", "expect"):
            return [(st, x if good else Ctl("panic"))]
        if m in ("iter", "into_iter"):
            return [(st, Lst([Item(x)] if good else []))]
        if m == "map_or":
            return s.apply(a[1], [x], st) if good else [(st, a[0])]
        if m == "map_or_else":
            return s.apply(a[1], [x], st) if good else s.apply(a[0], [], st)
        if m in ("cloned", "copied", "as_ref", "as_deref", "as_mut", "to_owned", "into"):
            return [(st, v)]
        if m in ("eq", "ne"):
            c = s.equal(v, a[0])
            return [(st, c if m == "eq" else z3.Not(c))]
        raise Unsupported("option method " + m)

    def map_method(s, l, m, a, st, e):
        """the map is a function of its insertions"""
        if m in ("into",):
            return [(st, l)]
        vt = None
        for _, x in s.e.flat(l):
            while isinstance(x, For):
                ys = [y for _, y in s.e.flat(x.body)]
                x = next((y for y in ys if isinstance(y, For) or isinstance(y, Item) and isinstance(y.v, Tup) and len(y.v.e) > 1), None)
            if isinstance(x, Item) and isinstance(x.v, Tup) and len(x.v.e) == 2 and isinstance(x.v.e[1], Op):
                vt = vt or x.v.e[1].ty
        if m in ("iter", "into_iter"):
            return [(st, s.as_list(s.e.app("entries", s.e.to_u(l), ty=f"implIterator<Item=(_,Vec<{vt or '_'}>)>")))]
        if m in ("keys", "values", "into_keys", "into_values"):
            return [(st, s.as_list(s.e.app(m.replace("into_", ""), s.e.to_u(l), ty="implIterator")))]
        raise Unsupported("map method " + m)

    def list_method(s, l, m, a, st, e):
        if is_map(l):
            return s.map_method(l, m, a, st, e)
        if s.e.strlist(l) and m not in ("is_empty", "into"):
            return s.method(Op(s.e.to_u(l), "str"), m, a, st, e)
        if m in ("iter", "into_iter", "collect", "iter_mut", "to_vec", "cloned", "copied", "by_ref", "into", "fuse", "peekable", "into_boxed_slice", "as_slice", "values", "shrink_to_fit"):
            return [(st, l)]
        if m == "filter":
            def f(v, n):
                r = []
                for c, b in s.pure(a[0], [v], n):
                    b = s.truth(b)
                    if not z3.is_false(b):
                        r.append((tuple(c) + (() if z3.is_true(b) else (b,)), Lst([Item(v)])))
                return r
            return [(st, s.map_items(l, st, f))]
        if m == "map":
            return [(st, s.map_items(l, st, lambda v, n: [(c, Lst([Item(x)])) for c, x in s.pure(a[0], [v], n)]))]
        if m in ("filter_map", "flat_map", "flatten"):
            def f(v, n):
                r = []
                for c, x in (s.pure(a[0], [v], n) if m != "flatten" else [((), v)]):
                    if m == "filter_map" or isinstance(x, Con) or isinstance(x, Op) and cat(x.ty) == "opt":
                        n2 = S(n.pc + tuple(c), n.store)
                        for n3, k in s.opt_cases(x, n2):
                            r.append((n3.pc[len(n.pc):], Lst([Item(k.a[0])] if k.n in ("Some", "Ok") else [])))
                    elif isinstance(x, Op) and cat(x.ty) is None and m == "flatten":
                        raise Unsupported("flatten")
                    else:
                        r.append((tuple(c), s.to_list(x, n)))
                return r
            return [(st, s.map_items(l, st, f))]
        if m == "chain":
            return [(st, Lst(l.segs + s.to_list(a[0], st).segs))]
        if m == "split_first":
            return [(n, Con("Some", Tup([c.a[0], s.tail(l)])) if c.n == "Some" else c) for n, c in s.first(l, st)]
        if m in ("last", "next_back") and not a:
            return s.last(l, st)
        if m == "rfind":
            return s.last(s.list_method(l, "filter", a, st, e)[0][1], st)
        if m in ("find", "any", "all", "find_map", "position"):
            if m == "find_map":
                r = s.list_method(l, "filter_map", a, st, e)
                return s.first(r[0][1], st)
            if m == "position":
                f2 = s.list_method(l, "filter", a, st, e)[0][1]
                return [(n, Con("Some", s.e.u2i(s.e.app("position_of", s.e.to_u(l), s.e.to_u(x.a[0])).t)) if x.n == "Some" else NONE) for n, x in s.first(f2, st)]
            def f(v, n):
                r = []
                for c, b in s.pure(a[0], [v], n):
                    b = s.truth(b)
                    if m == "all":
                        b = z3.Not(b)
                    r.append((tuple(c) + (b,), Lst([Item(v)])))
                return r
            fl = s.map_items(l, st, f)
            if m == "find":
                return s.first(fl, st)
            ex = s.exists(fl, st)
            return [(st, ex if m == "any" else z3.Not(ex))]
        if m == "contains":
            fl = s.map_items(l, st, lambda x, n: [((s.equal(x, a[0]),), Lst([Item(x)]))])
            return [(st, s.exists(fl, st))]
        if m in ("next", "first", "peek"):
            return s.first(l, st)
        if m == "is_empty":
            return [(st, z3.Not(s.exists(l, st)))]
        if m in ("count", "len"):
            if all(isinstance(g, Item) for g in l.segs):
                return [(st, z3.IntVal(len(l.segs)))]
            t = s.e.f("len", 1, I)(s.e.to_u(s.map_items(l, st, lambda v, n: [((), Lst([Item(s.e.const("()"))]))])))
            s.e.axiom(z3.And(t >= 0, (t > 0) == s.exists(l, st)))
            s.e.axiom((t > 1) == z3.And(t > 0, s.exists(s.to_list(s.tail(l), st), st)))
            return [(st, t)]
        if m == "for_each":
            return s.iterate(l, a[0], st)
        if m == "fold":
            s.cell += 1
            n = st.cp()
            cell = s.cell
            n.store[cell] = a[0]
            f = a[1]

            class Step(Clo):
                pass
            def step(v, st2):
                r = []
                for n2, y in s.apply(f, [st2.store[cell], v], st2):
                    if isinstance(y, Ctl):
                        raise Unsupported("control flow in a fold")
                    n3 = n2.cp()
                    n3.store[cell] = y
                    r.append((n3, UNIT))
                return r
            old = s.run_body
            s_run = lambda f_, v, st2, loop: s.merge(st2, step(v, st2)) if f_ is step else old(f_, v, st2, loop)
            s.run_body = s_run
            try:
                outs = s.iterate(l, step, n)
            finally:
                s.run_body = old
            return [(n2, n2.store[cell]) for n2, _ in outs]
        if m in ("take_while", "skip_while"):
            x = Op(s.e.fresh("e"), s.elem_ty(l))
            t = s.e.app(m, s.e.to_u(l), s.e.to_u(s.clo_list(s.typed(a[0], x.ty), st)), ty="implIterator" + (f"<Item={x.ty}>" if x.ty else ""))
            return [(st, s.as_list(t))]
        if m == "try_for_each":
            r = []
            for n, v in s.iterate(l, a[0], st):
                r.append((n, v if isinstance(v, Ctl) else Con("Ok", UNIT)))
            return r
        if any(isinstance(x, Clo) for x in a):
            if m in ("map_while", "scan", "partition", "group_by", "inspect", "dedup_by_key", "unzip"):
                t = s.e.app(m, s.e.to_u(l), *[s.e.to_u(s.clo_list(x, st) if isinstance(x, Clo) else x) for x in a], ty="implIterator")
                return [(st, s.as_list(t))]
            if m in ("max_by_key", "min_by_key", "reduce", "rposition"):
                return [(st, s.e.app(m, s.e.to_u(l), *[s.e.to_u(s.clo_list(x, st)) for x in a], ty="Option"))]
            raise Unsupported("iterator " + m)
        if m == "zip":
            other = a[0]
            t = s.e.app("zip", s.e.to_u(l), s.e.to_u(other if not isinstance(other, Ref) else st.store[other.cell]), ty=f"implIterator<Item=({s.elem_ty(l) or '_'},{s.elem_of(other, st) or '_'})>")
            return [(st, s.as_list(t))]
        if m in ("skip", "nth") and z3.is_expr(a[0]) and z3.is_int_value(a[0]) and a[0].as_long() < 6:
            for _ in range(a[0].as_long()):
                l = s.to_list(s.tail(l), st)
            return [(st, l)] if m == "skip" else s.first(l, st)
        if m in ("enumerate", "rev", "skip", "take", "step_by", "dedup", "sorted", "windows", "chunks", "tuple_windows", "split"):
            t = s.e.app(m, s.e.to_u(l), *[s.e.to_u(x) for x in a], ty=f"implIterator<Item=(usize,{s.elem_ty(l) or '_'})>" if m == "enumerate" else f"implIterator<Item={s.elem_ty(l)}>" if s.elem_ty(l) else "implIterator")
            return [(st, s.as_list(t))]
        if m in ("nth", "max", "min", "get"):
            return [(st, s.e.app(m, s.e.to_u(l), *[s.e.to_u(x) for x in a], ty="Option"))]
        return s.opaque_call(m, [l] + a, st)

    # ---- a function and its contract
    def params(s, f, given):
        env, st = {}, S()
        outs = []
        vals = []
        owner = s.owner.get(id(f))
        for i, p in enumerate(f["i"]):
            ty = p["ty"].replace(" ", "")
            if norm_ty(ty) == "Self":
                ty = owner or ty
            nm = p["p"].get("n", f"arg{i}")
            key = f"arg{i}"
            if key not in given:
                if re.match(r"&(\'\w+)?mut", ty):
                    v = s.wrap(Op(z3.Const(nm, U), norm_ty(ty) if nm != "self" else owner))
                    if re.match(r"&(\'\w+)?mut(Vec|SmallVec)", ty):
                        v = Lst((Splice(v),))
                    elif re.match(r"&(\'\w+)?mut(String|fmt::Formatter|std::fmt::Formatter|Formatter)", ty):
                        v = Lst((Ch(Op(v.t, "str")),))
                    given[key] = ("acc", v)
                else:
                    given[key] = s.wrap(Op(z3.Const(f"{'self' if nm == 'self' else nm}", U), norm_ty(ty) if nm != "self" else owner))
            vals.append(given[key])
        return vals

    def run(s, f, given):
        """paths [(conds, value, additions)]"""
        vals = s.params(f, given)
        st = S()
        accs = []
        args = []
        for v in vals:
            if isinstance(v, tuple):
                s.cell += 1
                st.store[s.cell] = v[1]
                accs.append(s.cell)
                args.append(Ref(s.cell))
            else:
                args.append(v)
        s.depth = 0
        s.stack = (f["n"],)
        r = []
        for n, v in s.apply(Clo([p["p"] for p in f["i"]], f["b"], {}), args, st):
            if isinstance(v, Ctl):
                if v.k == "panic":
                    v = Con("panic")
                else:
                    raise Unsupported("control flow out of the function")
            if isinstance(v, Ref):
                v = n.store[v.cell]
            r.append((n.pc, v, [n.store[c] for c in accs]))
        return r

    def check(s, impl, spec):
        """None if the function meets its contract, else the reason"""
        given = {}
        s.dead = []
        s.e.vocab = set()
        a = s.run(impl, given)
        va, s.e.vocab = s.e.vocab, set()
        b = s.run(spec, given)
        vb = s.e.vocab
        for x in given.values():
            if isinstance(x, tuple) and isinstance(x[1], Lst):
                c = x[1].segs[0].v.t.get_id()
                for pc, v, ls in b:
                    for l in ls + [v]:
                        for t in s.e.terms(l, x[1].segs[0]) + list(pc):
                            if any(y.get_id() == c for y in subterms(t)):
                                raise Unsupported("the contract depends on the list it adds to")
        if not a or not b:
            raise Unsupported("no path")
        for x, who in ((a, "function"), (b, "contract")):
            if not s.e.valid((), z3.Or([s.conj(c) for c, _, _ in x] + s.dead)):
                raise Unsupported(f"the paths of the {who} do not cover every case")
        r = s.compare(a, b)
        if r is None or r.startswith("~"):
            return r
        if s.e.unknown:
            return "~the solver gave up: " + r
        # a function the contract does not speak about may be related to those it does in ways that are not axiomatised
        # (constructors are free: two terms built by them are equal iff they are built alike)
        new = sorted(x for x in va - vb - INTERNAL - set(s.ctors) if not x.startswith("tuple"))
        return r if not new else f"~undecided, the function uses {', '.join(new[:6])}: " + r

    def compare(s, a, b):
        weak = None
        for c1, v1, l1 in a:
            for c2, v2, l2 in b:
                pc = c1 + c2
                if not s.e.sat(pc):
                    continue
                if len(l1) != len(l2):
                    return "~its mutable parameters changed"
                for x, y, eq in [(v1, v2, s.e.eq_vals)] + [(x, y, s.e.eq_lists if isinstance(x, Lst) and isinstance(y, Lst) else s.e.eq_vals) for x, y in zip(l1, l2)]:
                    r = eq(x, y, pc)
                    if r and not r.startswith("~"):
                        more = s.e.relate(pc)
                        if not more:
                            return r
                        pc = pc + more
                        if not s.e.sat(pc):
                            break
                        r = eq(x, y, pc)
                        if r and not r.startswith("~"):
                            return r
                    weak = weak or r
        return weak
