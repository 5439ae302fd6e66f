from gens import rat

DRIVERS = ["d_res"]
STS = ["generic", "lazard", "ducos"]


def coef(r, nv, size=1):
    """A polynomial in the variables after the first."""
    d = {}
    for _ in range(r.choice([1, 1, 1, 2])):
        m = [0] + [r.choice([0, 0, 1, 1, 2]) if r.random() < 0.6 else 0 for _ in range(nv - 1)]
        d[tuple(m)] = r.choice(["1", "-1", "2", "-3", "1", "1/2"])
    return [[list(m), c] for m, c in d.items()]


def mul(p, q):
    from fractions import Fraction
    d = {}
    for m, a in p:
        for n, b in q:
            k = tuple(x + y for x, y in zip(m, n))
            d[k] = d.get(k, 0) + Fraction(a) * Fraction(b)
    return [[list(m), str(c)] for m, c in d.items() if c]


def add(p, q):
    from fractions import Fraction
    d = {}
    for m, a in p + q:
        d[tuple(m)] = d.get(tuple(m), 0) + Fraction(a)
    return [[list(m), str(c)] for m, c in d.items() if c]


def umul(p, q):
    out = [[] for _ in range(len(p) + len(q) - 1)]
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            out[i + j] = add(out[i + j], mul(a, b))
    return out


def upoly(r, nv, deg):
    p = [coef(r, nv) if r.random() < 0.7 else [] for _ in range(deg)]
    return p + [coef(r, nv) if r.random() < 0.6 else [[[0] * nv, r.choice(["1", "2", "-1"])]]]


def pts(r, nv):
    return [["0"] + [rat(r, 1) if r.random() < 0.5 else str(r.randint(-99, 99)) for _ in range(nv - 1)] for _ in range(4)]


def session(r, n):
    nv = r.choice([1, 2, 2, 2, 3])
    out = [{"op": "begin", "nv": nv}]
    for _ in range(n):
        st = r.choice(STS)
        x = r.random()
        a, b = r.randint(0 if x < 0.05 else 1, 4), r.randint(1, 3)
        p, q = upoly(r, nv, a), upoly(r, nv, b)
        if r.random() < 0.25:          # a common factor
            f = upoly(r, nv, 1)
            p, q = umul(upoly(r, nv, r.randint(1, 2)), f), umul(upoly(r, nv, r.randint(0, 2)), f)
        elif r.random() < 0.2:         # gaps in the degrees
            p = [c if i in (0, len(p) - 1) else [] for i, c in enumerate(p)]
            q = [c if i in (0, len(q) - 1) else [] for i, c in enumerate(q)]
        if r.random() < 0.5:
            p, q = q, p
        if not p or not q or not p[-1] or not q[-1]:
            continue
        if x < 0.4:
            out.append({"op": "res", "p": p, "q": q, "st": st, "pts": pts(r, nv)})
        elif x < 0.6:
            out.append({"op": "disc", "p": p if len(p) <= 5 else q, "st": st, "pts": pts(r, nv)})
        else:
            out.append({"op": r.choice(["sub", "psc"]), "p": p, "q": q, "st": st, "pts": pts(r, nv)})
    return out


def gaps(r, n):
    """Remainders that drop by several degrees at once."""
    nv = r.choice([1, 2, 2])
    small = lambda: [[[0] + [r.choice([0, 0, 1])] * (nv - 1), r.choice(["1", "-1", "2", "-3", "5"])]]
    out = [{"op": "begin", "nv": nv}]
    for _ in range(n):
        b = r.randint(4, 6)
        a = b + r.choice([0, 1, 1, 2])
        low = r.choice([0, 1, 1, 2])
        p, q = [[small() if i == d or i <= low and r.random() < 0.8 else [] for i in range(d + 1)] for d in (a, b)]
        if r.random() < 0.3:
            p[low + 1] = small()
        if r.random() < 0.3:
            p, q = q, p
        for st in STS:
            out.append({"op": r.choice(["res", "sub", "psc"]), "p": p, "q": q, "st": st, "pts": pts(r, nv)[:2]})
    return out


def run(ctx):
    r = ctx.rng("r")
    ctx.model("MC_Res", {"Out": "FALSE", "Cs": '{"-1", "0", "2"}', "D": ctx.pick(3, 4)}, invariants=("Laws",), workers=8)
    by = {}
    for h in ctx.generate("MC_Res", {"Out": "TRUE", "Cs": '{"-1", "0", "1"}', "D": ctx.pick(3, 4)}):
        by.setdefault(str(h[0]["p"]), [{"op": "begin", "nv": 1}]).extend(h)
    s = list(by.values()) + [session(r, 8) for _ in range(ctx.pick(300, 5000))]
    s += [gaps(r, 3) for _ in range(ctx.pick(40, 600))]
    ctx.validate("d_res", "T_Res", s, source="all small pairs and random inputs")
