#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS  # noqa: E402
from tools.notes import NOTES, NOT_APPLICABLE  # noqa: E402

checks = []
props = [json.loads(line)["id"] for line in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    if p not in CHECKS:
        continue
    level = CHECKS[p][0]
    tech, note = NOTES[p]
    checks.append({
        "property": p,
        "quick_cmd": f"python3 run.py check {p}",
        "thorough_cmd": f"python3 run.py check {p} --tier thorough",
        "technique": tech,
        "level": level,
        "level_note": note,
    })
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "the check for this property is under construction")} for p in props if p not in CHECKS]
doc = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ specifications in spec/, checked with TLC; conformance harnesses in suites/. No hooks in /repo.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    f.write(json.dumps(doc, indent=1) + "\n")
