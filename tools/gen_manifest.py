#!/usr/bin/env python3
"""Writes MANIFEST.json from the constants of the check modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc", "checks", i.lower() + ".py")) and i not in NA:
        m = importlib.import_module("mc.checks." + i.lower())
        checks.append({"property": i, "quick_cmd": f"python3 -m mc.run {i}", "thorough_cmd": f"python3 -m mc.run {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
doc = {"version": 1, "setup_cmd": "python3 -m mc.setup", "checks": checks, "not_applicable": na}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
