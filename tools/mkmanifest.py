#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the property list and the check modules present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
na_reason = json.load(open(f"{V}/tools/not_applicable.json"))
notes = json.load(open(f"{V}/tools/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/sim/props/{i.lower()}.py"):
        checks.append(
            dict(
                property=i, quick_cmd=f"./check {i}", thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
                evidence_file=f"evidence/{i}.json",
                technique="deterministic simulation with fault injection: " + notes[i]["technique"],
                level="exploration", level_note=notes[i]["note"],
            )
        )
    else:
        na.append(dict(property=i, reason=na_reason.get(i, "No check yet: not claimed.")))
m = dict(
    version=1, setup_cmd="gcc -O1 -fPIC -shared -o /dev/null sim/shim.c -ldl -lpthread && /opt/venv/bin/python -m compileall -q sim >/dev/null",
    hooks=dict(guard="PETSIM_NO_HOOKS_NEEDED", enable="No hook in /repo: the seams are below (system calls, clock, listing, hash seed) or are the public interfaces (see DESIGN.md).", source_commits=[]),
    checks=checks, not_applicable=na,
)
with open(f"{V}/MANIFEST.json", "w") as h:
    json.dump(m, h, indent=1)
    h.write("\n")
