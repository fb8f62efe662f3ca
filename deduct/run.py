"""Obligations of a property, generated from /repo's current sources."""
import os, traceback
from .src import Unsupported

# every function the property rests on in crates/service is under contract
COMPLETE = {"P11", "P06", "P07", "P08", "P09", "P10", "P12", "P16", "P19", "P20", "P21", "P22", "P23", "P24", "P25"}
EMPTY = {"obligations": [], "trusted": [], "assumptions": [], "back_ends": {}, "solver_s": 0.0, "probes": [], "complete": False}


def domains(pid):
    from . import d_format, d_frame, d_parser, d_server, d_service, d_syntax, d_table
    D = {"P01": [d_parser.p01], "P02": [d_parser.p02], "P03": [d_parser.p03], "P04": [d_syntax.tree, d_syntax.accessors], "P05": [d_parser.p05],
         "P11": [d_table.p11], "P13": [d_format.formatter("P13")], "P14": [d_format.formatter("P14")], "P15": [d_format.formatter("P15")],
         "P18": [d_server.loop], "P19": [d_server.loop, d_frame.frame], "P20": [d_frame.frame]}
    ds = D.get(pid, [])
    if pid in d_service.DEPENDS:
        ds = ds + [d_service.contracts(pid, pid in COMPLETE)]
    return ds


def obligations(pid, repo, work, tier="quick"):
    r = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in EMPTY.items()}
    ds = domains(pid)
    r["complete"] = bool(ds)
    for d in ds:
        try:
            x = d(repo, tier)
        except Exception as e:      # never an alarm: the bounded search decides alone
            r["obligations"].append({"name": d.__name__, "function": None, "status": "unsupported",
                                     "detail": f"{type(e).__name__}: {e} {traceback.format_exc()[-300:]}"})
            r["complete"] = False
            continue
        r["obligations"] += x["obligations"]
        for k in ("trusted", "assumptions", "probes"):
            r[k] += [y for y in x.get(k, []) if y not in r[k]]
        for k, n in x.get("back_ends", {}).items():
            r["back_ends"][k] = r["back_ends"].get(k, 0) + n
        r["solver_s"] += x.get("solver_s", 0.0)
        r["complete"] = r["complete"] and x.get("complete", False)
    return r
