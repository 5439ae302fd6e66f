"""Threads using the pools (MonPool.tla: the protocol; Thr.tla: histories)."""
DRIVERS = ["d_thr"]
HD = {"op": "begin", "nv": 2, "types": "rr"}


def poly(r):
    t = {}
    for _ in range(r.randint(1, 3)):
        t[(r.randint(0, 2), r.randint(0, 2))] = r.choice(["1", "-1", "2", "1/2", "3"])
    return [[list(e), c] for e, c in t.items()]


# Shares of: creating, dropping, multiplying monomials, comparing them, polynomials, fresh and named variables, primes
MIX = [(35, 20, 17, 6, 15, 4, 3, 4), (35, 20, 17, 6, 15, 4, 3, 0), (1, 1), (3, 3, 2), (0, 0, 0, 0, 1), (0, 0, 0, 0, 0, 1, 1), (1, 1, 0, 0, 0, 2, 1), (1, 0, 0, 0, 0, 0, 0, 3)]


def session(r):
    n = r.choice([2, 2, 3, 3, 4])
    mix = r.choice(MIX)
    progs, polys = [], []
    for t in range(n):
        p = []
        for i in range(r.randint(2, 7)):
            a, b, c = r.randint(0, 2), r.randint(0, 2), r.randint(0, 2)
            k = r.choices(range(len(mix)), mix)[0]
            o = {"a": a, "b": b, "c": c}
            if k == 0:
                o.update(o="mk", e=r.choice([[1, 0], [0, 1], [1, 1], [2, 0], [2, 1]]))
            elif k == 6:
                o.update(o="named", name="v%d_%d" % (t, i))
            else:
                o["o"] = r.choice([None, ["drop"], ["mul", "mul", "div", "lcm"], ["cmp"], ["padd", "psub", "pmul", "peq", "peq"], ["fresh"], None, ["prime"]][k])
            p.append(o)
        progs.append(p)
        polys.append([poly(r) for _ in range(3)])
        if r.random() < 0.7:
            polys[-1][2] = r.sample(polys[-1][0], len(polys[-1][0]))
    m = r.choice([2, 3, 5, 10, 40])
    pts = sorted(r.sample(range(400), m)) if r.random() < 0.5 else sorted(r.sample(range(80), m))
    run = {"op": "run", "progs": progs, "polys": polys, "fine": r.random() < 0.6, "sched": [[k, r.randrange(n)] for k in pts]}
    if r.random() < 0.6:
        run.update(sched=[], rand=[r.randint(1, 1 << 30), r.choice([2, 4, 10, 30])])
    return [HD, run]


def run(ctx):
    r = ctx.rng("r")
    inv = ("Gets", "Unique", "Ids", "Found", "Counts", "Clean")
    for th, co, mo in ctx.pick([("{1, 2, 3}", "{1}", 6), ("{1, 2}", "{1, 2}", 6)], [("{1, 2, 3}", "{1}", 9), ("{1, 2, 3}", "{1, 2}", 7), ("{1, 2, 3, 4}", "{1}", 7)]):
        ctx.model("MonPool", {"Threads": th, "Contents": co, "MaxObj": mo}, invariants=inv, workers=8)
    s = ctx.generate("MC_Thr", {"Points": ctx.pick(40, 80), "Step": ctx.pick(7, 1)}, header=HD)
    s += [session(r) for _ in range(ctx.pick(6000, 60000))]
    ctx.validate("d_thr", "T_Thr", s, source="all pairs of preemptions of short programs, random programs and schedules")
