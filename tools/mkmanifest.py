import json, os, sys
sys.path.insert(0, "/verif")
from deduct.plan import PLAN
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    pl = PLAN[p]
    checks.append({"property": p, "quick_cmd": f"python3-vt check.py {p} --tier quick", "thorough_cmd": f"python3-vt check.py {p} --tier thorough",
                   "technique": pl["technique"], "level": pl["level"], "level_note": pl["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks are needed", "source_commits": []},
     "checks": checks, "not_applicable": [], "notes": "See DESIGN.md. Verification conditions are generated from /repo's current sources on every run (deduct/); the concrete search (harness/) looks for a failing input on the real code."}
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
