#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py; a property is claimed once checks/<id>.py exists."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import P
try:
    from props import NA
except ImportError:
    NA = {}

with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in sorted(P, key=lambda p: p["id"]):
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
             "observe_at": p["observe"], "hook_needed": p["hook"] or None}
        if p["state"]:
            a["state"] = p["state"]
        assert len(p["title"]) <= 80, p["title"]
        fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["qtext"]},
                             "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in sorted(P, key=lambda p: p["id"]):
    if os.path.exists(os.path.join(V, "checks", p["id"] + ".py")) and p["id"] not in NA:
        checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick bin/check " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough bin/check " + p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "its check is not built yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
