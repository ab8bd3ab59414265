#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check (vh list)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
have = set(open(os.path.join(here, "claimed.txt")).read().split())
race = set(open(os.path.join(root, "race_checks.txt")).read().split())
TECH = json.load(open(os.path.join(here, "technique.json")))
checks = []
for p in props:
    i = p["id"]
    if i not in have:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": ("runtime monitoring under the Go race detector: " if i in race else "runtime monitoring: ") + TECH[i][0],
        "level": "exploration",
        "level_note": TECH[i][1],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "its check is not built yet"} for p in props if p["id"] not in have]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
