#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the suites (run by hand)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from suites import SUITES  # noqa: E402
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SUITES:
        cmd = "python3 tools/check.py %s" % i
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": "env VERIF_TIER=thorough " + cmd, "evidence_file": "evidence/%s.json" % i,
                       "technique": NOTES[i][0], "level": "model_checking", "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, ["", "The specification does not cover it yet."])[1]})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ (TLC). No hooks in /repo: the harness only uses the public API."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
