#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")) or i in NA:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    m = importlib.import_module("checks." + i.lower())
    checks.append(
        {
            "property": i,
            "quick_cmd": f"/usr/bin/python3 run.py {i} --tier quick",
            "thorough_cmd": f"/usr/bin/python3 run.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": getattr(m, "TECHNIQUE", "symbolic execution of the real functions (jaxprs traced from /repo's source plus lifted Python), SMT (z3, cvc5) decides the assertion"),
            "level": "model_checking",
            "level_note": "bounded: " + m.BOUNDS + ". Reals for floats; see DESIGN.md for the trusted encoding." + (" Assumes: " + "; ".join(m.ASSUMPTIONS) if getattr(m, "ASSUMPTIONS", None) else ""),
        }
    )
json.dump(
    {
        "version": 1,
        "setup_cmd": "/usr/bin/python3 tools/setup.py",
        "hooks": {"guard": "none", "enable": "no hooks: the checks import /repo's working tree unmodified", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks: exit 0 held, 1 violation (replayed on the real code), 2 no verdict. run.py --replay FILE replays a counterexample.",
    },
    open(os.path.join(HERE, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "claimed,", len(na), "not")
