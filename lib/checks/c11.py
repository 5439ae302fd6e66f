from gens import mono, nzrat, terms

DRIVERS = ["d_gb"]


def poly(r, nv, md=2, n=None):
    x = r.random()
    if x < 0.03:
        return []
    if x < 0.07:
        return [[[0] * nv, nzrat(r, 1)]]
    return terms(r, nv, n or r.choice([1, 2, 2, 3, 3, 4]), md, r.choice([0, 0, 1]))


def tsos(r, nv):
    p = [[[2 * e for e in m], str(r.randint(1, 3))] for m, _ in terms(r, nv, r.choice([2, 2, 3]), 2, 0)]
    return p if r.random() < 0.7 else [t for t in p if any(t[0])]


def session(r, real=False):
    nv = r.choice([1, 2, 2, 2, 3, 3])
    kind = "real" if real else "std"
    reasons = r.random() < 0.5
    out = [{"op": "begin", "kind": kind, "nv": nv, "types": "r" * nv, "reasons": reasons}]
    md = 4 if nv == 1 else r.choice([1, 2, 2, 3]) if nv == 2 else r.choice([1, 2, 2])
    budget = 4 if nv < 3 else 3
    n = 0
    for _ in range(r.choice([1, 1, 2, 3])):
        for _ in range(r.choice([1, 2, 2, 3])):
            if n < budget:
                n += 1
                out.append({"op": "add", "p": tsos(r, nv) if real and r.random() < 0.4 else poly(r, nv, md)})
        if r.random() < 0.3 and not real:
            out.append({"op": "redin"})
        if r.random() < 0.15:
            out.append({"op": "copy"})
        out.append({"op": "calc", "reasons": reasons})
        if r.random() < 0.5:
            out.append({"op": "red", "p": poly(r, nv, 3, r.choice([1, 3, 5]))})
        if r.random() < 0.3:
            out.append({"op": "view"})
        if r.random() < 0.1:
            out.append({"op": "reset"})
    return out


def binomials(r):
    """Many generators of few terms in three variables: the criteria that drop critical pairs have work to do."""
    out = [{"op": "begin", "kind": "std", "nv": 3, "types": "rrr", "reasons": False}]
    for _ in range(r.choice([3, 4, 4, 4, 5, 6])):
        p = {}
        for _ in range(r.choice([1, 2, 2, 2])):
            m = [0, 0, 0]
            for _ in range(r.randint(1, 3)):
                m[r.randrange(3)] += 1
            p[tuple(m)] = r.choice(["1", "-1", "2", "-2"])
        out.append({"op": "add", "p": [[list(m), c] for m, c in sorted(p.items())]})
        if r.random() < 0.15:
            out.append({"op": "calc", "reasons": False})
    return out + [{"op": "calc", "reasons": False}]


def ideal(r):
    nv = r.choice([1, 2, 2, 3])
    out = [{"op": "begin", "kind": "ideal", "nv": nv, "types": "r" * nv, "reasons": False}]
    n = 0
    for _ in range(r.choice([4, 8, 14])):
        x = r.random()
        if x < 0.35 and n < 5:
            n += 1
            out.append({"op": "iadd", "p": poly(r, nv)})
        elif x < 0.45:
            out.append({"op": "ielim", "i": r.randint(0, 3)})
        elif x < 0.5:
            out.append({"op": r.choice(["icompact", "icopy", "icompact", "icopy", "iclear"])})
        elif x < 0.7:
            out.append({"op": "idiv", "t": [mono(r, nv, 4), nzrat(r, 1)]})
        elif x < 0.9:
            out.append({"op": "ired", "p": poly(r, nv, 3, r.choice([1, 3, 5]))})
        else:
            out.append({"op": "iview"})
    return out


def run(ctx):
    ctx.model("MC_GB", {"Out": "FALSE"}, invariants=("Laws",), workers=8)
    r = ctx.rng("r")
    gen = []
    for a, b in ctx.generate("MC_GB", {"Out": "TRUE"}):
        kind = r.choice(["std", "std", "real"])
        rs = r.random() < 0.5
        mid = [{"op": "calc", "reasons": rs}] if r.random() < 0.5 else []
        gen.append([{"op": "begin", "kind": kind, "nv": 2, "types": "rr", "reasons": rs}, {"op": "add", "p": a}] + mid +
                   [{"op": "add", "p": b}, {"op": "calc", "reasons": rs}, {"op": "view"}])
    s = [session(r) for _ in range(ctx.pick(700, 8000))] + [session(r, True) for _ in range(ctx.pick(300, 3000))]
    s += [binomials(r) for _ in range(ctx.pick(2500, 20000))]
    s += [ideal(r) for _ in range(ctx.pick(500, 5000))]
    ctx.validate("d_gb", "T_GB", gen + s, source="all small pairs and random histories", skip_rest=True)
