#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/checks.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from checks import CHECKS, TECHNIQUE, NOTE, HOOKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="python3 run.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=TECHNIQUE.get(i, TECHNIQUE["*"]),
                           level="exploration", level_note=NOTE.get(i, NOTE["*"])))
    else:
        na.append(dict(property=i, reason="check still under construction"))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na)
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
