#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from registry import CHECKS, TECHNIQUE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd=f"python3 bin/check.py {i} quick", thorough_cmd=f"python3 bin/check.py {i} thorough",
                           technique=TECHNIQUE[CHECKS[i].get("kind", "seq")], level="model_checking",
                           level_note=(CHECKS[i]["bounds"] or "see DESIGN.md")[:600]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built for it yet")))
m = dict(version=1, setup_cmd="python3 bin/check.py --setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
