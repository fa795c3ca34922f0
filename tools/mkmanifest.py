#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module in vp/checks is claimed."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTES = {}
notes_path = os.path.join(here, "tools", "notes.json")
if os.path.exists(notes_path):
    NOTES = json.load(open(notes_path))
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(here, "vp", "checks", pid.lower() + ".py")):
        n = NOTES.get(pid, {})
        checks.append({
            "property": pid,
            "quick_cmd": f"bin/check {pid}",
            "thorough_cmd": f"bin/check {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": n.get("technique", "property-based testing: generated inputs against an independent oracle"),
            "level": "exploration",
            "level_note": n.get("note", "random search over generated cases with shrinking; no exhaustiveness is claimed"),
        })
    else:
        na.append({"property": pid, "reason": NOTES.get(pid, {}).get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "bin/selftest", "checks": checks, "not_applicable": na}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
