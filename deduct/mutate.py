"""Small changes of a function's syntax tree: must-fail probes for the contracts."""
import copy
from .src import sub

SWAP = {"==": "!=", "!=": "==", "&&": "||", "||": "&&", "<": "<=", "<=": "<", ">": ">=", ">=": ">", "+": "-", "-": "+"}
METH = {"any": "all", "all": "any", "is_some": "is_none", "is_none": "is_some", "start": "end", "end": "start", "first_child": "last_child", "children": "descendants",
        "prev_sibling": "next_sibling", "next_sibling": "prev_sibling", "is_some_and": "is_none_or", "and_then": None, "skip": "take", "contains": None, "parent": None}


def sites(f):
    """[(description, mutated function)]"""
    nodes = list(sub(f["b"]))
    out = []

    def var(i, desc, fn):
        g = copy.deepcopy(f)
        x = list(sub(g["b"]))[i]
        fn(x)
        out.append((desc, g))
    for i, x in enumerate(nodes):
        k = x.get("k")
        if k == "bin" and x.get("o") in SWAP:
            var(i, f"{x['o']} -> {SWAP[x['o']]}", lambda y: y.__setitem__("o", SWAP[y["o"]]))
        elif k == "un" and x.get("o") == "!":
            def drop(y):
                e = y["e"]
                y.clear()
                y.update(e)
            var(i, "! dropped", drop)
        elif k == "mcall" and METH.get(x["m"]):
            var(i, f"{x['m']} -> {METH[x['m']]}", lambda y: y.__setitem__("m", METH[y["m"]]))
        elif k in ("path", "ppath") and isinstance(x.get("p"), str) and x["p"].startswith(("SyntaxKind::", "SymbolItemKind::")):
            var(i, f"{x['p']} replaced", lambda y: y.__setitem__("p", y["p"].split("::")[0] + "::Other__"))
        elif k == "por" and len(x["e"]) > 1:
            for j in range(len(x["e"])):
                var(i, f"alternative {j} dropped", lambda y, j=j: y["e"].pop(j))
        elif k == "str":
            var(i, f"{x['v']!r} changed", lambda y: y.__setitem__("v", y["v"] + "_"))
        elif k == "int":
            var(i, f"{x['v']} + 1", lambda y: y.__setitem__("v", type(y["v"])(int(y["v"]) + 1)))
        elif k == "if" and x.get("c", {}).get("k") not in ("iflet",):
            def neg(y):
                c = y["c"]
                y["c"] = {"k": "un", "o": "!", "e": c}
            var(i, "condition negated", neg)
        elif k == "block" and len(x.get("s", [])) > 0:
            for j, st in enumerate(x["s"]):
                if st.get("k") == "expr" and (st.get("semi") or j + 1 < len(x["s"])):
                    var(i, f"statement {j} dropped", lambda y, j=j: y["s"].pop(j))
    return out
