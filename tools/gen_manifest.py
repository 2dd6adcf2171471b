#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the registered rules and the tables below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from kv import ctx
ctx.load_rules()
from tools.notes import TECH, NOTE, NA
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ctx.RULES and i not in NA:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                       "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, TECH["*"]), "level": "other",
                       "level_note": NOTE.get(i, "") + (" " if i in NOTE else "") + NOTE["*"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash driver/build.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they read the type-checked THIR of /repo's current source, dumped by driver/ (a rustc driver), and compare the abstract value each function computes with the value the property prescribes. No code of krates is executed."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
