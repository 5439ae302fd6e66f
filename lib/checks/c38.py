"""Tarski queries, sign determination and Thom encodings agree with the points of the zero set."""
from fractions import Fraction as Fr
DRIVERS = ["d_thom"]
EMPTY = {"op": "begin", "nv": 2, "z": [], "gs": [], "cx": [], "mix": [], "zs": []}
FULL = ["0", "I", "0", "I"]


def umul(p, q):
    out = [Fr(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            out[i + j] += a * b
    return out


def padd(p, q, k=1):
    m = dict(p)
    for e, c in q.items():
        m[e] = m.get(e, 0) + k * c
    return {e: c for e, c in m.items() if c}


def pmul(p, q):
    m = {}
    for e, c in p.items():
        for f, d in q.items():
            g = tuple(a + b for a, b in zip(e, f))
            m[g] = m.get(g, 0) + c * d
    return {e: c for e, c in m.items() if c}


def uni(nv, u):
    return {(i,) + (0,) * (nv - 1): c for i, c in enumerate(u) if c}


def var(nv, i):
    return {tuple(int(j == i) for j in range(nv)): Fr(1)}


def const(nv, c):
    return {(0,) * nv: Fr(c)} if c else {}


def wire(p):
    return [[list(e), str(c)] for e, c in p.items()]


def us(u):
    return [str(c) for c in u]


def num(r):
    return Fr(r.randint(-3, 3), r.choice([1, 1, 1, 2, 3]))


FACTORS = [[-2, 0, 1], [1, 0, 1], [-1, -1, 1], [-3, 0, 1], [-2, 0, 0, 1], [1, -3, 0, 1], [1, 1, 1], [-1, 2], [1, 0, -3, 0, 1]]


def upoly(r, deg):
    """A polynomial of small degree, often with multiple, close or irrational roots."""
    p = [Fr(r.choice([1, 1, -1, 2, Fr(-1, 3)]))]
    while len(p) <= 1 or (len(p) <= deg and r.random() < 0.6):
        if r.random() < 0.5:
            f = [-num(r), Fr(1)]
        else:
            f = [Fr(c) for c in r.choice(FACTORS)]
        if len(p) + len(f) - 2 > deg:
            f = [-num(r), Fr(1)]
        p = umul(p, f)
        if r.random() < 0.2 and len(p) + len(f) - 2 <= deg:
            p = umul(p, f)
    return p


def small(r, deg=1):
    while True:
        g = [num(r) for _ in range(r.randint(1, deg + 1))]
        while g and g[-1] == 0:
            g.pop()
        if g:
            return g


def mpoly(r, nv, deg, n):
    m = {}
    for _ in range(n):
        e = [0] * nv
        for _ in range(r.randint(0, deg)):
            e[r.randrange(nv)] += 1
        m[tuple(e)] = num(r)
    return {e: c for e, c in m.items() if c}


def fan(nv, i, gs, cx):
    p = const(nv, 1)
    for g in gs:
        p = pmul(p, padd(var(nv, i), uni(nv, g), -1))
    return pmul(p, padd(pmul(var(nv, i), var(nv, i)), const(nv, 1))) if cx else p


def zero_set(r, nv):
    z = upoly(r, 6 if nv == 1 else 3 if nv == 2 else 2)
    if nv > 1 and r.random() < 0.04:
        z = [Fr(2)]
    gs = [[small(r) for _ in range(r.choice([1, 1, 2, 2, 3] if nv == 2 else [1, 1, 2]))] for _ in range(nv - 1)]
    cx = [nv == 2 and len(g) == 1 and r.random() < 0.2 for g in gs]
    ps = [uni(nv, z)] + [fan(nv, i + 1, gs[i], cx[i]) for i in range(nv - 1)]
    mix = []
    for _ in range(r.choice([0, 1, 1, 2]) if nv > 1 else 0):
        i, j = r.sample(range(nv), 2)
        h = mpoly(r, nv, 1, 2)
        if h:
            mix.append([i + 1, j + 1, wire(h)])
            ps[i] = padd(ps[i], pmul(h, ps[j]))
    return {"op": "begin", "nv": nv, "z": us(z), "gs": [[us(g) for g in l] for l in gs], "cx": cx, "mix": mix, "zs": [wire(p) for p in ps]}, z, gs


def queried(r, nv, z, gs):
    """A polynomial whose sign varies over the zero set."""
    k = r.random()
    if nv > 1 and k < 0.3:
        i = r.randrange(1, nv)
        return padd(var(nv, i), uni(nv, r.choice(gs[i - 1])) if r.random() < 0.6 else const(nv, num(r)), -1)
    if k < 0.5:
        d = [c * i for i, c in enumerate(z)][1:]
        return uni(nv, d) if any(d) else const(nv, 1)
    if k < 0.6:
        return uni(nv, upoly(r, 2))
    return mpoly(r, nv, r.choice([1, 2, 3]) if nv < 3 else 2, r.randint(1, 3))


def queries(r, nv, n):
    h, z, gs = zero_set(r, nv)
    out, added = [h, {"op": "size"}], 0
    for _ in range(n):
        p = wire(queried(r, nv, z, gs))
        k = r.random()
        if k < 0.4:
            out.append({"op": "taq", "p": p})
        elif k < 0.65 or added == (5 if nv == 1 else 4 if nv == 2 else 3):
            out.append({"op": "signs", "p": p})
        else:
            added += 1
            out.append({"op": "add", "p": p})
    return out


def ivl(r):
    k = r.random()
    if k < 0.3:
        return FULL
    a, b = sorted([num(r), num(r)])
    if k < 0.45:
        return [str(a), r.choice("SW"), "0", "I"]
    if k < 0.6:
        return ["0", "I", str(b), r.choice("SW")]
    return [str(a), r.choice("SW"), str(b), r.choice("SW")]


def thom(r, n):
    out = [EMPTY]
    us_ = []
    for _ in range(r.choice([1, 2, 2, 3])):
        p = upoly(r, 5)
        if us_ and r.random() < 0.3:
            p = umul(us_[0], [-num(r), Fr(1)]) if len(us_[0]) < 5 else us_[0]
        us_.append(p)
        out.append({"op": "roots", "p": wire(uni(2, p)), "iv": FULL if r.random() < 0.6 else ivl(r)})
    if r.random() < 0.6:
        for _ in range(r.choice([1, 1, 2])):
            gs = [small(r) for _ in range(r.choice([1, 2, 2, 3]))]
            cx, c = len(gs) == 1 and r.random() < 0.2, Fr(r.choice([1, 1, -1, 2]))
            p = pmul(const(2, c), fan(2, 1, gs, cx))
            out.append({"op": "lift", "i": r.randrange(2), "p": wire(p), "gs": [us(g) for g in gs], "c": str(c), "cx": cx,
                        "iv": FULL if r.random() < 0.7 else ivl(r)})
    for _ in range(n):
        op = r.choice(["cmp", "cmp", "cmp", "cmp", "cmpq", "cmpq", "mid", "midq", "sgn", "sgn", "in", "plus"])
        c = {"op": op, "i": r.randrange(60)}
        if op in ("cmp", "mid"):
            c["j"] = r.randrange(60)
        elif op in ("cmpq", "midq", "plus"):
            c["c"] = str(num(r))
        elif op == "in":
            c["iv"] = ivl(r)
        elif op == "sgn":
            c["p"] = wire(mpoly(r, 2, 3, 3) if r.random() < 0.4 else uni(2, upoly(r, 3)))
        out.append(c)
    return out


def run(ctx):
    r = ctx.rng("r")
    ctx.model("MC_Thom", {"Out": "FALSE", "NP": ctx.pick(3, 4), "NQ": ctx.pick(2, 3)}, invariants=("Laws",), workers=8)
    s = ctx.generate("MC_Thom", {"Out": "TRUE", "NP": ctx.pick(3, 4), "NQ": ctx.pick(1, 2)}, header=EMPTY)
    ctx.validate("d_thom", "T_Thom", s, source="roots of all small polynomials")
    s = [queries(r, 1, 10) for _ in range(ctx.pick(120, 1500))]
    s += [queries(r, 2, 8) for _ in range(ctx.pick(120, 1500))]
    s += [queries(r, 3, 5) for _ in range(ctx.pick(30, 300))]
    ctx.validate("d_thom", "T_Thom", s, source="random zero sets")
    s = [thom(r, 14) for _ in range(ctx.pick(150, 2000))]
    ctx.validate("d_thom", "T_Thom", s, source="random encodings")
