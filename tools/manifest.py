#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and engine/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "engine"))
import props

m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for line in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i in props.PROPS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": props.TECHNIQUE.get(i, "abstract interpretation of the type-checked program (MIR)"),
            "level": props.LEVEL.get(i, "other"),
            "level_note": props.NOTE[i],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": props.NA[i]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
