#!/usr/bin/env python3
"""Writes MANIFEST.json from the suites that exist and the properties that are listed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import suites
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in suites.ALL:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "technique": "TLA+ specification, exhaustively checked with TLC on small models; calls recorded from the "
                         "real library validated by TLC against the same specification",
            "level": "model_checking",
            "level_note": suites.NOTES.get(i, "the specification's own guarantees are checked exhaustively within the "
                          "model's bounds; the implementation is bound to it by validating every recorded call, so "
                          "conformance is established for the generated inputs (boundary, mutation and seeded random)"),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
