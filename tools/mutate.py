#!/usr/bin/env python3
"""mutate.py WORKER SEED COUNT: random one-token changes of the sources in a copy of /repo, each run against
the check of a property anchored there; survivors are logged to /root/mut/log.WORKER.jsonl for inspection.
A survey of the checks only: nothing here is used by a check."""
import json
import os
import random
import re
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
worker, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
only = sys.argv[4].split(",") if len(sys.argv) > 4 else None
W = f"/root/mut/w{worker}"
os.makedirs(W, exist_ok=True)
subprocess.run(["rsync", "-a", "--delete", "--exclude=_build", "/repo/", f"{W}/repo/"], check=True)
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
have = {f[:-3].upper() for f in os.listdir(f"{V}/lib/checks") if re.match(r"c\d\d\.py", f)}
targets = []
for p in props:
    if p["id"] in have and (not only or p["id"] in only):
        for f in p["anchors"]["files"]:
            q = f"{W}/repo/{f}"
            if os.path.isfile(q):
                targets.append((p["id"], f))
            elif os.path.isdir(q):
                for n in os.listdir(q):
                    if n.endswith((".h", ".cpp", ".tpp")):
                        targets.append((p["id"], f"{f}/{n}"))
rng = random.Random(seed)
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=>])<(?![<=>\w:])", "<="), (r"(?<![->=])>(?![>=\w:])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ ", " - "), (r" - ", " + "), (r"\+\+", "--"), (r"--", "++"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"),
       (r"\+=", "-="), (r"-=", "+="), (r" \* ", " + "), (r"!(?=\w)", ""), (r"\bSTRICT\b", "WEAK"), (r"\bWEAK\b", "STRICT"), (r"\bbreak;", ""), (r"\bcontinue;", ""), (r"\.begin\(\)", ".end()"),
       (r"\.lower\(\)", ".upper()"), (r"\.upper\(\)", ".lower()"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"^(\s*)[\w\.\->\[\]\*]+ (?:[+\-*]?=) [^;]*;$", r"\1;"), (r"^(\s*)[\w\.\->]+\([^;]*\);$", r"\1;"),
       (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"ceil", "floor"), (r"floor", "ceil"), (r"\bLESS\b", "LEQ"), (r"\bGREATER\b", "GEQ"), (r"\bPOSITIVE\b", "NEGATIVE")]


def mutants(text):
    out, block = [], False
    for n, line in enumerate(text.split("\n")):
        s = line.strip()
        if block:
            block = "*/" not in s
            continue
        if s.startswith("/*"):
            block = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "template", "CARL_LOG", "assert", "namespace", "using", "friend", "class", "struct", "static_assert")) or "CARL_LOG" in s or "assert" in s:
            continue
        code = line.split("//")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if pat.startswith("(?<![") and ("template" in code or "std::" in code and "<" in code and "(" not in code):
                    continue
                out.append((n, code[:m.start()] + m.expand(rep) + code[m.end():] + line[len(code):]))
    return out


# properties are drawn evenly
byprop = {}
for pid, f in targets:
    byprop.setdefault(pid, []).append(f)
env = dict(os.environ, VERIF_REPO=f"{W}/repo", VERIF_BUILD=f"{W}/build", VERIF_SEED="1", VERIF_TIER="quick", VERIF_EVIDENCE=f"{W}/evidence")
log = open(f"/root/mut/log.{worker}.jsonl", "a")
done = 0
while done < count:
    pid = rng.choice(sorted(byprop))
    f = rng.choice(byprop[pid])
    path = f"{W}/repo/{f}"
    text = open(path).read()
    ms = mutants(text)
    if not ms:
        continue
    n, new = rng.choice(ms)
    lines = text.split("\n")
    old = lines[n]
    if new == old:
        continue
    lines[n] = new
    open(path, "w").write("\n".join(lines))
    t = time.time()
    try:
        r = subprocess.run(["nice", f"{V}/bin/check", pid], env=env, capture_output=True, text=True, timeout=900)
        rc, outp = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        rc, outp = -9, ""
    open(path, "w").write(text)
    kind = {0: "SURVIVED", 1: "killed"}.get(rc, "error")
    if kind == "error" and "error:" in outp:
        kind = "nocompile"
    log.write(json.dumps({"p": pid, "f": f, "line": n + 1, "old": old.strip(), "new": new.strip(), "res": kind, "s": round(time.time() - t), "tail": outp[-300:] if kind == "error" else ""}) + "\n")
    log.flush()
    if kind != "nocompile":
        done += 1
