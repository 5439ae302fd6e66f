"""Common divisors and factors of multivariate polynomials (MG.tla)."""
from checks.c34 import poly
from gens import mono, nzrat, terms

DRIVERS = ["d_mg"]


def times(p, q):
    from fractions import Fraction
    out = {}
    for m, a in p:
        for n, b in q:
            k = tuple(x + y for x, y in zip(m, n))
            out[k] = out.get(k, 0) + Fraction(a) * Fraction(b)
    return [[list(m), str(c)] for m, c in out.items() if c]


def product(r, nv, pool):
    p = [[[0] * nv, r.choice(["1", "1", "-1", "2", "-3/4"])]]
    for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
        p = times(p, r.choice(pool))
        if max([sum(m) for m, _ in p] + [0]) > 4:
            break
    return p


def session(r, n):
    nv = r.choice([1, 2, 2, 3, 3])
    out = [{"op": "begin", "nv": nv, "types": "r" * nv}]
    pool = [terms(r, nv, r.choice([1, 2, 2, 3]), r.choice([1, 1, 2]), r.choice([0, 1])) for _ in range(3)]
    pool = [p for p in pool if p] or [[[[1] * nv, "1"]]]
    v = lambda: r.randint(1, nv)
    for _ in range(n):
        x = r.random()
        p, q = product(r, nv, pool), product(r, nv, pool)
        if r.random() < 0.1:
            q = poly(r, nv)
        if x < 0.4:
            out.append({"op": "gcd", "p": p, "q": q})
        elif x < 0.55:
            out.append({"op": "ugcd", "p": p, "q": q, "v": v()})
        elif x < 0.7:
            out.append({"op": "cont", "p": p, "v": v()})
        elif x < 0.82:
            out.append({"op": "fact", "p": p, "inc": r.random() < 0.5})
        elif x < 0.9:
            out.append({"op": "term", "s": [mono(r, nv, 3), nzrat(r, 1)], "t": [mono(r, nv, 3), nzrat(r, 1)]})
        else:
            out.append({"op": "repr", "p": p, "v": v(), "w": v()})
    return out


def run(ctx):
    ctx.model("MC_Fact", {"Out": "FALSE", "K": ctx.pick(4, 5)}, invariants=("Laws",), workers=8)
    r = ctx.rng("g")
    ctx.validate("d_mg", "T_MG", [session(r, 20) for _ in range(ctx.pick(800, 8000))])
