#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table in tools/props.py (run by hand after editing it)."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA  # noqa: E402

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        f.write(json.dumps(d) + "\n")
checks = [{"property": p["id"], "quick_cmd": "bin/check %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough bin/check %s" % p["id"],
           "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["note"]} for p in PROPS]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "All checks analyse the MIR or the type-checked program of /repo's current tree; nothing of /repo is executed. See DESIGN.md."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
