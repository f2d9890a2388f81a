#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
notes = json.load(open(os.path.join(root, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"./check.sh {i} --thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": notes[i]["technique"],
            "level": "exploration",
            "level_note": notes[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": "./check.sh --build-only",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the harness replaces the C library's clock and sleep functions in its own binary. VERIF_SEED seeds every generator; VERIF_TIER=thorough raises the case counts.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
