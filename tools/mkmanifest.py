#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the check modules present."""
import importlib
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.dont_write_bytecode = True
checks, na = [], []
NA = {}
exec(open(V + "/tools/not_applicable.py").read())
for line in open(V + "/properties.jsonl"):
    pid = json.loads(line)["id"]
    if not os.path.exists(f"{V}/lib/checks/{pid.lower()}.py"):
        na.append({"property": pid, "reason": NA.get(pid, "no check yet")})
        continue
    m = importlib.import_module("checks." + pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": f"VERIF_TIER=quick bin/check {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough bin/check {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "TLA+ specification checked with TLC; behaviours generated from it by TLC and seeded random histories are replayed in the real code, and every recorded trace is checked by TLC against the specification",
        "level": "model_checking",
        "level_note": getattr(m, "NOTE", "Laws of the specification: exhaustive in a small scope. Conformance: sampled histories, exact comparison with the specification at every step."),
    })
hooks = {"guard": "CARL_VERIF_HOOKS", "enable": "-DCARL_VERIF_HOOKS", "source_commits": HOOK_COMMITS}
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py", "hooks": hooks, "checks": checks, "not_applicable": na,
           "notes": "Checks build drivers from /repo's working tree into /verif/build. See DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
