"""Write properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing the catalogue)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
import props

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in sorted(props.P):
        d = {x: y for x, y in props.P[k].items() if x != "note"}
        f.write(json.dumps(d) + "\n")
checks = []
for k in sorted(props.P):
    if k in props.NA:
        continue
    m = importlib.import_module("sa.rules." + k.lower())
    assert m.ID == k and m.TITLE == props.P[k]["title"], (k, m.TITLE)
    checks.append({"property": k, "quick_cmd": f"./check {k} quick", "thorough_cmd": f"./check {k} thorough",
                   "technique": "static analysis: " + m.EXPL.split(":")[0][:300], "level": "other", "level_note": props.P[k]["note"]})
json.dump({"version": 1, "setup_cmd": "/usr/bin/python3 -B -c \"import ast, sys; sys.exit(0)\"", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(props.NA.items())],
           "notes": "Pure-Python static analyser (stdlib ast) over /repo/spflow; see DESIGN.md. Known findings: known-findings.jsonl."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
