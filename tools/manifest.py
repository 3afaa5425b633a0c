#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import specs
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in props:
    s = specs.SPECS.get(i)
    if s and not s.get("draft"):
        checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
    else:
        na.append({"property": i, "reason": specs.NOT_APPLICABLE.get(i, "No check has been built for it yet.")})
m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py checks/specs.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: compiler instrumentation (-fsanitize=thread linked against our own runtime) and interposed libc calls give the control points. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
