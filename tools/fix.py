#!/usr/bin/env python3
"""Commit a repair in /repo: fix.py FILE... reads python dict spec on stdin: edits=[(file, old, new)], msg, props."""
import os, subprocess, sys
REPO = os.environ.get("VERIF_REPO", "/repo")
ns = {}
exec(sys.stdin.read(), ns)
for edits, msg, found in ns["FIXES"]:
    for f, a, b in edits:
        p = REPO + "/" + f
        s = open(p).read()
        if s.count(a) != 1:
            sys.exit(f"{s.count(a)} matches in {f} for:\n{a}")
        open(p, "w").write(s.replace(a, b))
    subprocess.run(["git", "-C", REPO, "commit", "-qam", msg], check=True)
    h = subprocess.run(["git", "-C", REPO, "rev-parse", "--short", "HEAD"], capture_output=True, text=True).stdout.strip()
    with open("/verif/known-findings.txt", "a") as fh:
        for pid, what in found:
            fh.write(f"fixed: property={pid} {h} {what}\n")
    print(h, msg.splitlines()[0])
