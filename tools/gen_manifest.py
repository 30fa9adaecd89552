"""writes MANIFEST.json from plan.py and properties.jsonl"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import NOTES, PLAN  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append(dict(property=i, reason="the check is not built yet"))
        continue
    mc = ", ".join(sorted({m["module"] for m in PLAN[i].get("models", [])}))
    checks.append(dict(
        property=i,
        quick_cmd=f"python3 run.py check {i} --tier quick",
        thorough_cmd=f"python3 run.py check {i} --tier thorough",
        evidence_file=f"evidence/{i}.json",
        technique="TLA+ specification, TLC trace validation of recorded library executions"
                  + (f"; TLC models {mc}" if mc else ""),
        level="model_checking",
        level_note=NOTES.get(i, "every recorded execution is judged by TLC against the specification; what is not recorded is not decided"),
    ))
json.dump(dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the public API exposes the state the specification talks about."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
