"""Predicates over characters, and which first characters a parser surely accepts, as formulas over all scalar values."""
import z3
from .src import Unsupported
from . import parsev
from .parsev import P, Closure, Enum, Vec, Tup, Opaque, Text

ASCII = {
    "is_ascii_lowercase": [(97, 122)], "is_ascii_uppercase": [(65, 90)], "is_ascii_digit": [(48, 57)],
    "is_ascii_alphabetic": [(65, 90), (97, 122)], "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)],
    "is_ascii_punctuation": [(33, 47), (58, 64), (91, 96), (123, 126)], "is_ascii_graphic": [(33, 126)],
    "is_ascii": [(0, 127)], "is_ascii_control": [(0, 31), (127, 127)], "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)],
    "is_ascii_hexdigit": [(48, 57), (65, 70), (97, 102)],
}
# beyond ASCII only one member is told; the rest is left open
UNICODE = {
    "is_alphanumeric": ("is_ascii_alphanumeric", 0xE9), "is_alphabetic": ("is_ascii_alphabetic", 0xE9), "is_lowercase": ("is_ascii_lowercase", 0xE9),
    "is_uppercase": ("is_ascii_uppercase", 0xC9), "is_numeric": ("is_ascii_digit", 0xB2), "is_control": ("is_ascii_control", 0x80),
}
MULTISPACE = [(9, 10), (13, 13), (32, 32)]


def rng(c, rs):
    return z3.Or([z3.And(c >= a, c <= b) for a, b in rs])


def scalar(c):
    return z3.And(c >= 0, c <= 0x10FFFF, z3.Not(z3.And(c >= 0xD800, c <= 0xDFFF)))


class Chars:
    def __init__(s, fns):
        s.fns, s.depth, s.unknown = fns, 0, set()

    def no(s, why):
        s.unknown.add(why)
        return z3.BoolVal(False)

    def fn(s, name, c):
        f = s.fns.get(name)
        if not f or len(f["i"]) != 1 or f["i"][0]["p"]["k"] != "pid":
            raise Unsupported("predicate " + name)
        s.depth += 1
        if s.depth > 20:
            raise Unsupported("recursion in " + name)
        try:
            return s.ex(f["b"], {f["i"][0]["p"]["n"]: c})
        finally:
            s.depth -= 1

    def closure(s, e, c):
        return s.ex(e["e"], s.pat(e["i"][0], c)[1])

    def pat(s, p, c):
        """(formula, bindings)"""
        k = p["k"]
        if k == "pid":
            if p.get("sub"):
                f, b = s.pat(p["sub"], c)
                return f, {**b, p["n"]: c}
            return z3.BoolVal(True), {p["n"]: c}
        if k == "pwild":
            return z3.BoolVal(True), {}
        if k in ("ptype", "pref"):
            return s.pat(p["e"], c)
        if k == "plit":
            v = p["v"]
            if v["k"] == "char":
                return c == ord(v["v"]), {}
        if k == "por":
            return z3.Or([s.pat(q, c)[0] for q in p["e"]]), {}
        if k == "prange":
            f = z3.BoolVal(True)
            if p.get("lo"):
                f = z3.And(f, c >= s.ch(p["lo"], {}))
            if p.get("hi"):
                hi = s.ch(p["hi"], {})
                f = z3.And(f, c <= hi if p.get("incl", True) else c < hi)
            return f, {}
        raise Unsupported("character pattern " + k)

    def ch(s, e, env):
        """a character valued expression"""
        k = e["k"]
        if k == "char":
            return z3.IntVal(ord(e["v"]))
        if k == "path" and e["p"] in env and not z3.is_bool(env[e["p"]]):
            return env[e["p"]]
        if k in ("ref", "cast") or k == "un" and e["o"] == "*":
            return s.ch(e["e"], env)
        if k == "mcall" and e["m"] in ("clone", "to_owned", "as_char", "into"):
            return s.ch(e["r"], env)
        raise Unsupported("character expression " + k)

    def ex(s, e, env):
        k = e["k"]
        if k == "bool":
            return z3.BoolVal(bool(e["v"]))
        if k == "path" and e["p"] in env and z3.is_bool(env[e["p"]]):
            return env[e["p"]]
        if k == "mcall":
            if e["m"] in ASCII:
                return rng(s.ch(e["r"], env), ASCII[e["m"]])
            if e["m"] in UNICODE and not e["a"]:
                c, (a, x) = s.ch(e["r"], env), UNICODE[e["m"]]
                open_ = z3.Function(e["m"], z3.IntSort(), z3.BoolSort())
                return z3.If(c < 128, rng(c, ASCII[a]), z3.Or(c == x, open_(c)))
            if e["m"] == "is_digit" and e["a"][0]["k"] == "int" and int(e["a"][0]["v"]) in (10, 16):
                return rng(s.ch(e["r"], env), ASCII["is_ascii_digit" if int(e["a"][0]["v"]) == 10 else "is_ascii_hexdigit"])
            if e["m"] == "contains" and len(e["a"]) == 1:
                return s.member(e["r"], s.ch(e["a"][0], env), env)
        if k == "bin":
            if e["o"] == "&&":
                return z3.And(s.ex(e["a"], env), s.ex(e["b"], env))
            if e["o"] == "||":
                return z3.Or(s.ex(e["a"], env), s.ex(e["b"], env))
            try:
                a, b = s.ch(e["a"], env), s.ch(e["b"], env)
            except Unsupported:
                a, b = s.ex(e["a"], env), s.ex(e["b"], env)
            return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b,
                    ">": lambda: a > b, ">=": lambda: a >= b}[e["o"]]()
        if k == "un" and e["o"] == "!":
            return z3.Not(s.ex(e["e"], env))
        if k == "matches":
            c = s.ch(e["e"], env)
            f, b = s.pat(e["p"], c)
            if e.get("g"):
                f = z3.And(f, s.ex(e["g"], {**env, **b}))
            return f
        if k == "match":
            c = s.ch(e["e"], env)
            r, prev = [], z3.BoolVal(False)
            for a in e["a"]:
                f, b = s.pat(a["p"], c)
                if a["g"]:
                    f = z3.And(f, s.ex(a["g"], {**env, **b}))
                r.append(z3.And(z3.Not(prev), f, s.ex(a["e"], {**env, **b})))
                prev = z3.Or(prev, f)
            return z3.Or(r)
        if k == "if":
            if e["c"]["k"] == "iflet" or not e["e"]:
                raise Unsupported("if")
            c = s.ex(e["c"], env)
            return z3.If(c, s.ex(e["t"], env), s.ex(e["e"], env))
        if k == "block":
            return s.block(e["s"], env)
        if k == "return":
            return s.ex(e["e"], env)
        if k == "call" and e["f"]["k"] == "path" and len(e["a"]) == 1:
            return s.fn(e["f"]["p"].split("::")[-1], s.ch(e["a"][0], env))
        raise Unsupported("predicate " + k)

    def block(s, ss, env):
        if not ss:
            raise Unsupported("block without a value")
        x, rest = ss[0], ss[1:]
        if x["k"] == "let" and x["p"]["k"] == "pid" and x["e"] is not None:
            try:
                v = s.ex(x["e"], env)
            except Unsupported:
                v = s.ch(x["e"], env)
            return s.block(rest, {**env, x["p"]["n"]: v})
        if x["k"] == "expr":
            e = x["e"]
            if not rest:
                return s.ex(e, env)
            if e["k"] == "return":
                return s.ex(e, env)
            if e["k"] == "if" and not e["e"] and e["c"]["k"] != "iflet":
                return z3.If(s.ex(e["c"], env), s.ex(e["t"], env), s.block(rest, env))
            if e["k"] == "macro" and e["n"].startswith("debug_assert"):
                return s.block(rest, env)
            if e["k"] == "tuple" and not e["e"]:
                return s.block(rest, env)
        if x["k"] == "let" and x["p"]["k"] == "pwild":
            return s.block(rest, env)
        raise Unsupported("statement in a predicate")

    def member(s, e, c, env):
        """c is in the set of tokens e: char, array, tuple, range, closure, function"""
        k = e["k"]
        if k in ("array", "tuple"):
            return z3.Or([s.member(x, c, env) for x in e["e"]])
        if k == "ref":
            return s.member(e["e"], c, env)
        if k == "char":
            return c == ord(e["v"])
        if k == "str":
            return z3.Or([c == ord(x) for x in e["v"]])
        if k == "range":
            f = z3.BoolVal(True)
            if e["lo"]:
                f = z3.And(f, c >= s.ch(e["lo"], env))
            if e["hi"]:
                hi = s.ch(e["hi"], env)
                f = z3.And(f, c <= hi if e.get("incl", True) else c < hi)
            return f
        if k == "closure":
            return s.closure(e, c)
        if k == "path":
            return s.fn(e["p"].split("::")[-1], c)
        raise Unsupported("set of characters " + k)

    # ---- parsers, syntactically: the condition on the first character under which the parser surely succeeds
    def total(s, e, env):
        """succeeds on every input"""
        k = e["k"]
        if k == "path":
            n = e["p"].split("::")[-1]
            return n in ("multispace0", "till_line_ending", "rest", "empty", "space0", "digit0", "alphanumeric0")
        if k == "call" and e["f"]["k"] == "path":
            n = e["f"]["p"].split("::")[-1]
            if n in ("take_while", "take_till", "repeat") and e["a"][0]["k"] == "range":
                lo = e["a"][0]["lo"]
                return not lo or lo["k"] == "int" and int(lo["v"]) == 0
            return n == "opt"
        if k == "mcall" and e["m"] in ("take", "void", "map", "value", "context"):
            return s.total(e["r"], env)
        if k == "tuple":
            return all(s.total(x, env) for x in e["e"])
        return False

    def succ(s, e, env, c):
        k = e["k"]
        if k == "block":
            if len(e["s"]) == 1 and e["s"][0]["k"] == "expr":
                return s.succ(e["s"][0]["e"], env, c)
            if len(e["s"]) > 1 and e["s"][0]["k"] == "let" and e["s"][0]["p"]["k"] == "pid":
                x = e["s"][0]
                return s.succ({"k": "block", "s": e["s"][1:]}, {**env, x["p"]["n"]: ("expr", x["e"], env)}, c)
            if len(e["s"]) > 1 and e["s"][0]["k"] == "let" and e["s"][0]["p"]["k"] == "pwild":
                return s.succ({"k": "block", "s": e["s"][1:]}, env, c)
            raise Unsupported("block")
        if s.total(e, env):
            return z3.BoolVal(True)
        if k in ("char", "str"):
            return c == ord(e["v"]) if len(e["v"]) == 1 else z3.BoolVal(False)
        if k == "path":
            n = e["p"].split("::")[-1]
            if isinstance(env.get(n), tuple):
                return s.succ(env[n][1], env[n][2], c)
            if n == "any":
                return z3.BoolVal(True)
            if n == "fail":
                return z3.BoolVal(False)
            if n in ("multispace1",):
                return rng(c, MULTISPACE)
            if n in s.fns:
                return s.fn_succ(n, {}, c)
            return s.no(n)
        if k == "tuple":
            if all(s.total(x, env) for x in e["e"][1:]):
                return s.succ(e["e"][0], env, c)
            return z3.BoolVal(False)
        if k == "mcall":
            if e["m"] in ("take", "void", "map", "value", "context", "by_ref"):
                return s.succ(e["r"], env, c)
            if e["m"] == "parse_next":
                return s.succ(e["r"], env, c)
            return s.no(e["m"])
        if k == "dispatch":
            on = e["e"]
            if not (on["k"] == "call" and on["f"].get("p", "").split("::")[-1] == "peek" and on["a"][0].get("p", "").split("::")[-1] == "any"):
                return s.no("dispatch")
            r, prev = [], z3.BoolVal(False)
            for a in e["a"]:
                f, b = s.pat(a["p"], c)
                if a["g"]:
                    f = z3.And(f, s.guard(a["g"], {**env, **b}))
                r.append(z3.And(z3.Not(prev), f, s.succ(a["e"], env, c)))
                prev = z3.Or(prev, f)
            return z3.Or(r)
        if k == "call" and e["f"]["k"] == "path":
            n = e["f"]["p"].split("::")[-1]
            if n in s.fns:
                f = s.fns[n]
                if len(f["i"]) != len(e["a"]):
                    raise Unsupported("arguments")
                sub = {}
                for p, a in zip(f["i"], e["a"]):
                    if p["p"]["k"] != "pid":
                        raise Unsupported("parameter")
                    sub[p["p"]["n"]] = z3.BoolVal(bool(a["v"])) if a["k"] == "bool" else env.get(a.get("p"), ("expr", a, env))
                return s.fn_succ(n, sub, c)
            if n == "alt" and e["a"][0]["k"] == "tuple":
                return z3.Or([s.succ(x, env, c) for x in e["a"][0]["e"]])
            if n == "one_of":
                return s.member(e["a"][0], c, env)
            if n == "none_of":
                return z3.Not(s.member(e["a"][0], c, env))
            if n in ("take_while", "take_till") and e["a"][0]["k"] == "range":
                lo = e["a"][0]["lo"]
                if lo and lo["k"] == "int" and int(lo["v"]) == 1:
                    m = s.member(e["a"][1], c, env)
                    return m if n == "take_while" else z3.Not(m)
            return s.no(n)
        return s.no(k)

    def guard(s, e, env):
        return s.ex(e, env)

    def fn_succ(s, n, sub, c):
        f = s.fns[n]
        s.depth += 1
        if s.depth > 20:
            s.depth -= 1
            return z3.BoolVal(False)
        try:
            return s.succ(f["b"], sub, c)
        finally:
            s.depth -= 1


def check(f, timeout=20000):
    """(status, model value or None)"""
    so = z3.Solver()
    so.set("timeout", timeout)
    so.add(f)
    return so, str(so.check())
