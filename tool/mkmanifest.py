#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, notes
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
out = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [], "notes": notes.NOTES}
for p in props:
    pid = p["id"]
    if pid in checks.REG:
        tech, note = notes.TECH[pid]
        out["checks"].append({"property": pid, "quick_cmd": "python3 run.py " + pid, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + pid,
                              "evidence_file": "evidence/%s.json" % pid, "technique": tech, "level": checks.REG[pid][1], "level_note": note})
    else:
        out["not_applicable"].append({"property": pid, "reason": "not built yet"})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
