#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props

with open(ROOT + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"].split(), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"].split(),
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in p.get("state", [])],
                "mechanism": [dict(zip(("name", "where"), s)) for s in p["mech"]],
                "observe_at": p.get("observe", []),
                "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 -c 'from sa import build; build.tool()'", "checks": [], "not_applicable": []}
for p in props.PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                            "technique": p["technique"], "level": "other", "level_note": p["note"]})
m["notes"] = ("Every check compiles driver translation units over the current sources of /repo to a "
              "normalised intermediate representation and decides its rules there without executing "
              "any of it; exit 2 means that the analysis could not be carried out.")
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
