#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables of parts.py and notes.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from parts import PARTS, LEVEL
from notes import TECH, NOTE, NA
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check build", "checks": [], "not_applicable": []}
for i in ids:
    if i in PARTS:
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                            "technique": TECH[i], "level": LEVEL[i], "level_note": NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
m["notes"] = "see DESIGN.md"
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
