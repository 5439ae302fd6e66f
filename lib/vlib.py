"""Machinery shared by all checks: run drivers, run TLC, collect evidence, report."""
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

import build
from build import BUILD, CP, VERIF, ToolError

JOBS = 8


def dumps(c):
    return json.dumps(c, separators=(",", ":"))


class Ctx:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.work = f"{BUILD}/run/{pid}.{os.getpid()}"
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.sessions_ok = 0
        self.events_ok = 0
        self.model_runs = []
        self.samples = []
        self.sources = {}
        self.rejects = []      # (driver, trace module, session, index of event, event)
        self.known_hit = []
        self.assumptions = []

    def rng(self, salt):
        return random.Random(f"{self.seed}/{self.id}/{salt}")

    def log(self, what):
        sys.stderr.write(f"[{self.id}] {time.time() - self.t0:6.1f}s {what}\n")

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, extra=(), workers=1, env=None, mem="1500m", timeout=800):
        tag = hashlib.sha1(f"{module}{cfg}{extra}{env}".encode()).hexdigest()[:10]
        d = f"{self.work}/{module}.{tag}"
        os.makedirs(d, exist_ok=True)
        cfgp = f"{d}/{module}.cfg"
        with open(cfgp, "w") as fh:
            fh.write(cfg)
        cmd = ["java", "-Xss128m", f"-Xmx{mem}", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               f"-Djava.io.tmpdir={d}", "-cp", CP, f"-DTLA-Library={VERIF}/spec", "tlc2.TLC", "-metadir", d,
               "-workers", str(workers), "-noGenerateSpecTE", "-config", cfgp, *extra, f"{VERIF}/spec/{module}.tla"]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=d,
                               env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        out = "\n".join(x for x in r.stdout.splitlines() if "operator override" not in x and not x.startswith(("Parsing file", "Semantic proc", "Linting", "Computed")))
        return r.returncode, out + r.stderr

    @staticmethod
    def counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out) or \
            re.findall(r"number of states generated: (\d+)", out)
        if not m:
            return 0, 0
        x = m[-1]
        return (int(x[1]), int(x[0])) if isinstance(x, tuple) else (int(x), int(x))

    def model(self, module, consts=None, invariants=("Inv",), props=(), init="Init", nxt="Next", workers=4,
              extra=(), mem="3g", env=None, constraint=None):
        """Model-check a module of the specification; its laws must hold."""
        cfg = f"INIT {init}\nNEXT {nxt}\nCHECK_DEADLOCK FALSE\n"
        for i in invariants:
            cfg += f"INVARIANT {i}\n"
        for p in props:
            cfg += f"PROPERTY {p}\n"
        if constraint:
            cfg += f"CONSTRAINT {constraint}\n"
        for k, v in (consts or {}).items():
            cfg += f"CONSTANT {k} = {v}\n"
        rc, out = self.tlc(module, cfg, extra, workers=workers, mem=mem, env=env)
        if rc != 0:
            raise ToolError(f"the specification module {module} does not satisfy its laws (or TLC failed):\n" + out[-4000:])
        s, t = self.counts(out)
        if s == 0:
            raise ToolError(f"no states explored in {module}\n" + out[-3000:])
        self.states += s
        self.transitions += t
        self.log(f"model {module}: {s} distinct states")
        self.model_runs.append({"module": module, "distinct_states": s, "states_generated": t})
        return out

    def generate(self, module, consts=None, simulate=None, depth=None, header=None, init="Init", nxt="Next",
                 invariants=(), constraint=None, workers=1):
        """Behaviours of a generator module: TLC prints each as JSON (a list of commands)."""
        extra = []
        if simulate:
            extra = ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(self.seed)]
        out = self.model(module, consts, invariants=invariants, init=init, nxt=nxt, workers=workers, extra=tuple(extra),
                         constraint=constraint)
        seen, res = set(), []
        for line in out.splitlines():
            if line.startswith('"HIST'):
                h = json.loads(line)[4:]
                if h not in seen:
                    seen.add(h)
                    cmds = json.loads(h)
                    res.append(([header] if header else []) + cmds)
        if not res:
            raise ToolError(f"no behaviours generated from {module}\n" + out[-3000:])
        return res

    # ------------------------------------------------- driver + trace check
    def _chunk(self, k, driver, module, skip_rest, sessions, expect_known):
        tin, tout = f"{self.work}/{module}.{k}.in", f"{self.work}/{module}.{k}.out"
        with open(tin, "w") as fh:
            for s in sessions:
                for c in s:
                    fh.write(dumps(c) + "\n")
        r = subprocess.run([self.bins[driver], tin, tout], capture_output=True, text=True, timeout=840)
        if r.returncode != 0:
            raise ToolError(f"driver {driver} failed ({r.returncode}): {r.stderr[-2000:]}")
        groups = []
        for line in open(tout):
            e = json.loads(line)
            if e["op"] == "begin":
                groups.append([])
            if not e.get("abandoned"):
                groups[-1].append(line)
        if len(groups) != len(sessions):
            raise ToolError(f"driver {driver}: {len(groups)} sessions recorded, {len(sessions)} sent")
        bad = {}
        todo = [i for i in range(len(groups)) if groups[i]]
        gen = 0
        for attempt in range(12):
            if not todo:
                break
            tr = f"{self.work}/{module}.{k}.trace"
            index = []
            with open(tr, "w") as fh:
                for g in todo:
                    for n, line in enumerate(groups[g]):
                        fh.write(line)
                        index.append((g, n))
            cfg = ("INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n"
                   f"CONSTANT SkipRest = {'TRUE' if skip_rest else 'FALSE'}\n")
            rc, out = self.tlc(module, cfg, env={"TRACE": tr}, mem="2g")
            for m in re.finditer(r'^<<"REJECT", (\d+)>>', out, re.M):
                g, n = index[int(m.group(1)) - 1]
                bad.setdefault(g, n)
            s, t = self.counts(out)
            if rc == 0 and f'<<"DONE", {len(index)}>>' in out:
                gen += len(index)
                break
            # TLC could not evaluate the specification on an event: the observed result is
            # outside of what the specification can describe. Reject it and continue.
            ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
            if not ls or not re.search(r"Attempted|was evaluating|overridden|evaluat|In applying|exception", out):
                raise ToolError(f"TLC failed on a trace of {module} (rc={rc}):\n" + out[-4000:])
            g, n = index[int(ls[-1]) - 1]
            if os.environ.get("VERIF_DEBUG"):
                sys.stderr.write(f"[{self.id}] event not evaluable: {groups[g][n].strip()[:400]}\n" +
                                 "\n".join(x for x in out[out.find("Error:"):].splitlines() if x.strip())[:700] + "\n")
            bad.setdefault(g, n)
            todo = [x for x in todo if x != g]
        else:
            raise ToolError(f"too many events outside of the domain of {module}")
        return groups, bad

    def validate(self, driver, module, sessions, skip_rest=False, source="random", samples=1):
        """Execute the sessions in the real code and check the recorded traces."""
        if not sessions:
            return
        self.sources[source] = self.sources.get(source, 0) + len(sessions)
        n = min(JOBS, max(1, len(sessions)))
        parts = [list(range(i, len(sessions), n)) for i in range(n)]
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            fs = [ex.submit(self._chunk, f"{source}{i}", driver, module, skip_rest, [sessions[j] for j in p], False)
                  for i, p in enumerate(parts)]
            results = [f.result() for f in fs]
        cand = []
        nev = 0
        for p, (groups, bad) in zip(parts, results):
            for gi, g in enumerate(groups):
                nev += len(g)
                if not g:
                    continue
                if gi in bad:
                    cand.append((sessions[p[gi]], bad[gi], json.loads(g[bad[gi]])))
                else:
                    self.sessions_ok += 1
                    self.events_ok += len(g)
            if groups and groups[len(groups) // 2] and len(self.samples) < 6 and samples:
                g = groups[len(groups) // 2]
                self.samples.append({"source": source, "events": [json.loads(x) for x in g[:4]]})
                samples -= 1
        self.states += nev
        self.transitions += nev
        self.log(f"validated {len(sessions)} sessions / {nev} events ({driver}, {source})")
        if cand:
            # A rejection must be reproducible before it is reported.
            if os.environ.get("VERIF_DEBUG"):
                by = {}
                for _, _, ev in cand:
                    by.setdefault(f"{ev.get('op')} {ev.get('f', '')}", []).append(ev)
                for k, evs in by.items():
                    sys.stderr.write(f"[{self.id}]   {k}: {len(evs)} e.g. {dumps(evs[0])[:300]}\n")
            sub = cand[:40]
            groups, bad = self._chunk(f"{source}re", driver, module, skip_rest, [c[0] for c in sub], False)
            for gi, (s, n_, ev) in enumerate(sub):
                if gi in bad:
                    self.rejects.append((driver, module, s, bad[gi], json.loads(groups[gi][bad[gi]])))
                else:
                    sys.stderr.write(f"[{self.id}] not reproducible, ignored: {dumps(ev)[:400]}\n")
            sys.stderr.write(f"[{self.id}] {len(cand)} rejected sessions from {source}\n")

    def expect_known(self, driver, module, session, text, skip_rest=False):
        groups, bad = self._chunk("known" + hashlib.sha1(text.encode()).hexdigest()[:6], driver, module, skip_rest, [session], True)
        if 0 in bad:
            with open(f"{VERIF}/known-findings.txt") as fh:
                listed = f"known: property={self.id} {text}" in fh.read().splitlines()
            if not listed:
                n = bad[0]
                ev = json.loads(groups[0][n])
                self.rejects.append((driver, module, session, n, ev))
                return
            self.known_hit.append(text)
            print(f"KNOWN-FINDING: property={self.id} {text}")

    # ---------------------------------------------------------------- result
    def finish(self):
        rc = 0
        if self.rejects:
            os.makedirs(f"{BUILD}/replay", exist_ok=True)
            shown = {}
            for driver, module, s, n, ev in self.rejects:
                key = (driver, ev.get("op"))
                shown[key] = shown.get(key, 0) + 1
                if shown[key] > int(os.environ.get("VERIF_SHOW", "2")):
                    continue
                h = hashlib.sha1(dumps(s).encode()).hexdigest()[:10]
                path = f"{BUILD}/replay/{self.id}-{h}.json"
                with open(path, "w") as fh:
                    json.dump({"property": self.id, "driver": driver, "trace_module": module,
                               "rejected_event_index": n, "rejected_event": ev, "session": s}, fh, indent=1)
                print(f"VIOLATION property={self.id} replay={path}")
                print("  rejected event: " + dumps(ev)[:600])
            rc = 1
        elif self.sessions_ok == 0:
            raise ToolError("no trace was validated")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.sessions_ok,
               "events_validated": self.events_ok,
               "sessions_by_source": self.sources, "model_runs": self.model_runs,
               "samples": self.samples or [dumps(r[4]) for r in self.rejects[:3]]}
        ev = {"property": self.id, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.rejects)}
        evd = os.environ.get("VERIF_EVIDENCE", f"{VERIF}/evidence")
        os.makedirs(evd, exist_ok=True)
        with open(f"{evd}/{self.id}.json", "w") as fh:
            json.dump(ev, fh, indent=1)
        print(f"{self.id} {ev['tier']}: {self.sessions_ok} sessions / {self.events_ok} events accepted, "
              f"{len(self.rejects)} rejected, {len(self.model_runs)} model runs, {ev['wall_s']} s")
        return rc

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def known_findings(pid):
    """Lines 'known: property=<id> key=<name> <text>' of known-findings.txt."""
    res = {}
    p = f"{VERIF}/known-findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    return res
