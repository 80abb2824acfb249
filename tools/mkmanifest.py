#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that run/plans.py has a plan for."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "run"))
import plans
TECH = {}
exec(open(os.path.join(ROOT, "tools", "techniques.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if hasattr(plans, i):
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 run/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run/check.py %s --tier thorough" % i,
                       "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 run/setup.py",
           "hooks": {"guard": "none", "enable": "no hooks: the harness is compiled into the module with go build -overlay", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "TLA+ specification in spec/, judged by TLC on traces recorded from the code; see DESIGN.md"},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
