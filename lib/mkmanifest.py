#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib.props import PROPS, NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE]}
lines = []
def line(k, p):
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    for x in ("state", "observe_at"):
        if p.get(x): a[x] = p[x]
    return json.dumps({"id": k, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                       "why_tests_cant": p["why"], "anchors": a})
for k, p in PROPS.items():
    assert len(p["title"]) <= 80, k
    lines.append(line(k, p))
    m["checks"].append({
        "property": k,
        "quick_cmd": "python3 check.py %s" % k,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % k,
        "evidence_file": "evidence/%s.json" % k,
        "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
for p in NOT_APPLICABLE:
    lines.append(line(p["id"], p))
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
