#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist; run after adding a check"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    s = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, s)):
        t = TECH[i]
        checks.append(dict(property=i, quick_cmd="python3 " + s, thorough_cmd="VERIF_TIER=thorough python3 " + s,
                           technique=t["technique"], level="other", level_note=t["note"]))
    else:
        na.append(dict(property=i, reason=TECH[i]["na"]))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
