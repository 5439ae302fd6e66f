#!/usr/bin/env python3
"""plant.py SPECFILE: turns a description of planted bugs into /verif/seeded/<id>/.

The file defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new), ...], demo="c++ body", libs=[...])].
The demo is a C++ program whose exit status tells whether the property held."""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
R = os.environ.get("VERIF_REPO", "/repo")
only = sys.argv[2:]
for b in ns["BUGS"]:
    if only and b["id"] not in only:
        continue
    if subprocess.run(["git", "-C", R, "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout.strip():
        sys.exit("repo not clean")
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in b["edits"]:
        p = R + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"{b['id']}: {s.count(old)} matches in {f}")
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(b["demo"].lstrip("\n"))
    link = " ".join(["_build/libcarl.so" if False else x for x in b.get("link", [])])
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# Compiles demo.cpp against the library sources and runs it; exit 0 iff the property held.
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -O0 -pthread {b.get('flags', '')} -I src -isystem /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" \\
  -L _build -L _build/lib {link} -lcarl -lcarl-logging -lgmpxx -lgmp -ldl -Wl,-rpath,"$PWD/_build" || exit 3
timeout {b.get('timeout', 60)} "$t/demo"
""")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("planted", b["id"], len(diff.splitlines()), "diff lines")
