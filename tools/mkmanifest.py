#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, subprocess
NOTES = json.load(open('/verif/tools/levels.json'))
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for p in props:
    if p not in NOTES:
        continue
    n = NOTES[p]
    checks.append({
        "property": p,
        "quick_cmd": f"bash run.sh {p}",
        "thorough_cmd": f"bash run.sh {p} -tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "model_checking",
        "level": n["level"],
        "level_note": n["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check is 'bash run.sh <property>'; it builds the explorer in mc/ against /repo's working tree into a scratch directory, explores and removes it. No instrumentation in /repo.",
}, open('/verif/MANIFEST.json', 'w'), indent=1)
