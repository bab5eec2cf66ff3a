#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": []}
for p in ids:
    if p in checks.CHECKS:
        t, n = NOTE.get(p, NOTE["default"])
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py " + p,
                            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": "The specification doesn't cover it yet."})
m["notes"] = "TLA+ specifications in spec/, checked with TLC; harness/ drives the public API of /repo and records traces. No hooks in /repo."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
