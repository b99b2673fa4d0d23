#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS
checks, na = [], []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in PROPS:
        c = PROPS[p]
        checks.append({"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough",
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "no hooks: the drivers in /verif use the public API only, compiled against /repo/include", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Specification in spec/ (TLA+, TLC). run.py compiles a driver from /repo's headers, records what the code does and has TLC decide whether the specification allows it."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
