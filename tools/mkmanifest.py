#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule registry (sa/rules.py)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "sa"))
import rules
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in rules.CLAIMED:
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick",
                       "thorough_cmd": f"python3 check.py {p} --tier thorough",
                       "technique": rules.TECH[p], "level": "other", "level_note": rules.NOTE[p]})
    else:
        na.append({"property": p, "reason": rules.NA.get(p, "no rule built yet")})
json.dump({"version": 1, "setup_cmd": "python3 sa/dump.py", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of the monomorphised MIR of /repo's working tree; see DESIGN.md."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
