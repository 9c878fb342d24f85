#!/usr/bin/env python3
"""Rewrites the `fixed` entries of known_findings.json from /repo's fix: commits (run by hand, never by a check)."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(ROOT, "known_findings.json")
# commit subject -> property
PROPS = json.load(open(os.path.join(ROOT, "tools", "fixes.json")))
known = [f for f in (json.load(open(P)) if os.path.exists(P) else []) if f["status"] == "known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        prop, what = PROPS[s[5:]]
        known.append({"status": "fixed", "property": prop, "commit": h, "what": what,
                      "line": "fixed: property=%s %s %s" % (prop, h, what)})
json.dump(known, open(P, "w"), indent=1)
print(len(known))
