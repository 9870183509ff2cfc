"""Writes MANIFEST.json from harness/plan.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "harness"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i in PLAN:
        specs = sorted({c["trace"] for c in PLAN[i]["conf"]}) 
        mods = [m["spec"] for m in PLAN[i]["mc"]]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
            technique="TLA+ model (%s) checked by TLC, bound to the code by replay and trace validation (%s)" % (", ".join(mods), ", ".join(specs)),
            level="model_checking",
            level_note=PLAN[i].get("note", "The design is checked exhaustively by TLC within small constants; the code is bound to it on the generated scenarios only, each recorded step of which must be a step of the specification. Trusts TLC, the harness's mapping between concrete values and tokens, and pyarrow/numpy.")))
na = [dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in props if p["id"] not in PLAN]
json.dump(dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed: everything is observed through the public API and the files it writes."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
