import json

DRIVERS = ["d_cover"]
HEUR = ["trivial", "greedy", "exact", "bounded", "weighted", "dups", "essential"]


def heur(r, h=None):
    h = h or r.choice(HEUR)
    return {"op": "heur", "h": h, "bound": r.choice([0, 0, 1, 2, 3, 12]), "w": [r.randint(1, 6) for _ in range(5)]}


def system(r):
    n, e = r.choice([(2, 3), (4, 6), (5, 9), (6, 10), (7, 12)]), 0
    n, e = n
    far = r.random() < 0.3
    el = lambda: r.choice([0, 1, 63, 64, 65, 127, 128, 130]) if far else r.randint(0, e - 1)
    dens = r.choice([0.1, 0.25, 0.5])
    return n, [(i, [x for x in range(e) if r.random() < dens] if not far else [el() for _ in range(r.randint(0, 5))]) for i in range(n)]


def build(r, typed, n, sets):
    out = []
    names = r.sample(range(50), n) if typed else list(range(n))
    for i, l in r.sample(sets, len(sets)) if r.random() < 0.7 else sets:
        if r.random() < 0.5:
            out.append({"op": "setb", "x": names[i], "l": l})
        else:
            out += [{"op": "set", "x": names[i], "e": x} for x in r.sample(l, len(l))]
    if r.random() < 0.5:
        r.shuffle(out)
    return out, names


def session(r):
    typed = r.random() < 0.5
    n, sets = system(r)
    out, names = build(r, typed, n, sets)
    s = [{"op": "begin", "kind": "typed" if typed else "plain"}] + out
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < 0.7:
            s.append(heur(r))
        elif x < 0.8:
            s.append({"op": "view"})
        elif x < 0.85:
            s.append({"op": "select", "i": r.randint(0, n)})
        elif x < 0.9:
            s.append({"op": "prune"})
        else:
            s.append({"op": "set", "x": r.choice(names), "e": r.randint(0, 12)})
    return s + [{"op": "view"}]


def cov(r):
    n = r.choice([1, 3, 6, 64, 65])
    s = [{"op": "begin", "kind": "cov", "n": n}]
    for x in r.sample(range(20), r.randint(1, 8)):
        s.append({"op": "add", "x": x, "l": sorted({r.randint(0, n - 1) for _ in range(r.randint(0, n))}) if n < 60 else list(range(*sorted((r.randint(0, n), r.randint(0, n)))))})
        s += [{"op": "conf"}, {"op": "sat"}, {"op": "core"}]
    return s


def run(ctx):
    ctx.model("MC_Cover", {"N": ctx.pick(3, 4), "E": ctx.pick(3, 3), "Out": "FALSE"}, invariants=("Laws",), workers=8)
    r = ctx.rng("r")
    out = ctx.model("MC_Cover", {"N": 3, "E": 3, "Out": "TRUE"}, invariants=(), workers=1)
    gen = []
    for line in out.splitlines():
        if line.startswith('"HIST'):
            l = json.loads(json.loads(line)[4:])
            for h in HEUR:
                kind = r.choice(["typed", "plain"])
                gen.append([{"op": "begin", "kind": kind}] + [{"op": "setb", "x": i, "l": x} for i, x in enumerate(l)] + [heur(r, h), heur(r, "greedy")])
    s = [[{"op": "begin", "kind": k}, heur(r, h), {"op": "view"}] for k in ("typed", "plain") for h in HEUR]
    s += [session(r) for _ in range(ctx.pick(2500, 40000))] + [cov(r) for _ in range(ctx.pick(300, 4000))]
    ctx.validate("d_cover", "T_Cover", gen + s, source="all small systems and random ones", skip_rest=True)
