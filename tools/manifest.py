#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p in sorted(PROPS):
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p,
                   "thorough_cmd": "python3 tools/check.py %s thorough" % p,
                   "technique": "TLA+ specification checked with TLC, real code executed in the loop as the transition system's environment; traces judged by the specification",
                   "level": "model_checking", "level_note": NOTES[p]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": []}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
