"""P11: the instruction table evaluates to the specification, one obligation per instruction."""
import json, os
from .src import load, Unsupported
from .conc import Conc, Enum, Struct

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TYPES = {"I32": "i32", "I64": "i64", "F32": "f32", "F64": "f64", "V128": "v128", "FuncRef": "funcref", "ExternRef": "externref"}


def ty(v):
    if isinstance(v, Enum) and v[0] == "Generic":
        return "*"
    if isinstance(v, Enum) and v[0] == "Val" and isinstance(v[1][0], Enum):
        return TYPES.get(v[1][0][0], v[1][0][0])
    raise Unsupported(f"operand type {v!r}")


def norm(s):
    """an opcode: bytes in hexadecimal"""
    try:
        return [int(x, 16) for x in s.split()]
    except ValueError:
        return s


def find(repo):
    for f, items in load(repo, "crates/service/src"):
        if isinstance(items, list):
            for i in items:
                if i["k"] == "const" and i["n"] == "INSTR_METAS":
                    return f, items
    raise Unsupported("no INSTR_METAS")


def p11(repo, tier):
    f, items = find(repo)
    m = {}
    t = Conc(items).const("INSTR_METAS")
    if not isinstance(t, dict):
        raise Unsupported("INSTR_METAS is not a map")
    spec = json.load(open(HERE + "/spec/instrs.json"))
    obs = []
    for n in sorted(set(spec) | set(t)):
        name = f"INSTR_METAS[{n!r}] == specification"
        if n not in t:
            d = "missing from the table"
        elif n not in spec:
            d = "no instruction of the specification"
        else:
            x, s = t[n], spec[n]
            if not isinstance(x, Struct) or set(x.f) != {"bin_op", "operands_count", "params", "results"}:
                raise Unsupported("layout of InstrMeta")
            got = {"op": norm(x.f["bin_op"]), "imm": x.f["operands_count"], "params": [ty(v) for v in x.f["params"]], "results": [ty(v) for v in x.f["results"]]}
            want = {"op": norm(s["op"]), "imm": s["imm"], "params": s["params"], "results": s["results"]}
            d = "; ".join(f"{k} is {got[k]}, the specification says {want[k]}" for k in got if got[k] != want[k])
        obs.append({"name": name, "function": "service/src/data_set/instr_meta.rs::INSTR_METAS", "status": "refuted" if d else "proved", "detail": f"{n}: {d}" if d else "",
                    "vcs": 1, "backend": "exact evaluation"})
    return {"obligations": obs, "trusted": ["spec/instrs.json is the WebAssembly specification's instruction list (written by hand, see DESIGN.md)", "deduct/conc.py evaluates the table as rustc does"],
            "assumptions": [], "back_ends": {"exact evaluation": len(obs)}, "solver_s": 0.0, "probes": [], "complete": True}
