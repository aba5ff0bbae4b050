#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
from claims import CLAIMS, NA
ids = [p['id'] for p in props]
assert set(CLAIMS) | set(NA) == set(ids), set(ids) ^ (set(CLAIMS) | set(NA))
assert not set(CLAIMS) & set(NA)
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMS:
        c = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                            "technique": c[0], "level": "other", "level_note": c[1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
