"""Square root expressions and virtual substitution (Vs.tla)."""
from fractions import Fraction

from checks.c29 import ALG, RELS

DRIVERS = ["d_vs"]
ALGS = ALG + [["a", ["2", "0", "-1"], "1", "2"], ["a", ["1", "1", "-1"], "-1", "0"], ["a", ["1", "1", "-1"], "1", "2"], ["a", ["-5", "0", "4"], "1", "2"]]
NUMS = ["0", "1", "-1", "2", "-2", "3", "1/2", "-1/2", "3/2", "-3", "4", "-5/3"]
COEFS = ["1", "1", "-1", "2", "-2", "3", "-3", "1/2", "-3/2", "4"]


def poly(r, nv, vs, n, deg, zero=0.1):
    if r.random() < zero:
        return []
    out = {}
    for _ in range(r.randint(1, n)):
        e = [0] * nv
        for _ in range(r.randint(0, deg)):
            if vs:
                e[r.choice(vs) - 1] += 1
        out[tuple(e)] = r.choice(COEFS)
    return [[list(e), c] for e, c in out.items()]


def inx(r, nv, v, deg, top):
    """A polynomial in x_v with coefficients over the other variables."""
    ps = [i for i in range(1, nv + 1) if i != v]
    out = {}
    for k in range(deg + 1):
        if k < deg and r.random() < 0.25:
            continue
        for e, c in poly(r, nv, ps, 2 if r.random() < top else 1, r.choice([0, 0, 1, 1, 2]), 0):
            e = list(e)
            e[v - 1] = k
            out[tuple(e)] = c
    return [[list(e), c] for e, c in out.items()]


def points(r, nv, n):
    return [[r.choice(NUMS) for _ in range(nv)] for _ in range(n)]


def square(p):
    out = {}
    for e, c in p:
        for f, d in p:
            k = tuple(a + b for a, b in zip(e, f))
            out[k] = out.get(k, 0) + Fraction(c) * Fraction(d)
    return [[list(k), str(c)] for k, c in out.items() if c]


def session(r, n):
    nv = 3
    cmds = [{"op": "begin", "nv": nv, "types": "rrr", "pts": points(r, nv, 6)}]
    rads = [poly(r, nv, [2, 3], 2, 2), [[[0, 0, 0], r.choice(["2", "3", "4", "9/4", "8", "1/2"])]], square(poly(r, nv, [2, 3], 2, 1))]
    # Handles stay valid only if their expression was constructed: start with two that are.
    for k in (1, 2, 4):
        cmds.append({"op": "sqp", "p": poly(r, nv, [2, 3], 2, 2), "way": r.random() < 0.5, "to": k})
    cmds.append({"op": "sq", "c": poly(r, nv, [2, 3], 2, 1), "f": poly(r, nv, [2, 3], 1, 1, 0), "d": [[[0, 0, 0], r.choice(COEFS)]] if r.random() < 0.6 else poly(r, nv, [2, 3], 1, 1, 0), "q": rads[0] if len(rads[0]) > 1 else rads[1], "to": 3})
    sure = [1, 2, 3]
    for _ in range(n):
        k = r.random()
        x, y = r.choice(sure + [3]), r.choice(sure + [3])
        z = r.choice([x, x, 4])
        if k < 0.12:
            # The target keeps its old expression if this is not possible.
            cmds.append({"op": "sq", "c": poly(r, nv, [2, 3], 2, 1, 0.2), "f": poly(r, nv, [2, 3], 1, 1, 0.25), "d": poly(r, nv, [2, 3], 1, r.choice([0, 0, 1]), 0.01), "q": r.choice(rads), "to": r.choice([1, 2, 3])})
        elif k < 0.24:
            cmds.append({"op": "sqop", "o": r.choice("+-*/"), "x": r.choice(sure), "y": r.choice(sure), "to": 4 if r.random() < 0.8 else 1})
        elif k < 0.28:
            cmds.append({"op": "sqin", "p": inx(r, nv, 1, r.choice([1, 2, 3]), 0.3) if r.random() < 0.9 else poly(r, nv, [1, 2, 3], 3, 2), "v": r.choice([1, 1, 1, 2]), "x": x, "to": 4})
        elif k < 0.31:
            cmds.append({"op": "sqsub", "x": z, "m": [[v, r.choice(NUMS)] for v in (2, 3) if r.random() < 0.6], "to": 4})
        elif k < 0.36:
            cmds.append({"op": "sqeval", "x": z, "m": [[v, r.choice(NUMS)] for v in (1, 2, 3)], "n": r.choice([-1, 0, 1])})
        elif k < 0.39:
            cmds.append({"op": "sqeq", "x": z, "y": y})
        elif k < 0.43:
            cmds.append({"op": "sqinfo", "x": z})
        elif k < 0.52:
            cmds.append({"op": "zeros", "p": inx(r, nv, 1, r.choice([0, 1, 1, 2, 2, 2, 3]), 0.4), "rel": r.choice(RELS), "v": 1})
        elif k < 0.80:
            cmds.append({"op": "subst", "p": inx(r, nv, 1, r.choice([0, 1, 1, 2, 2, 3]), 0.3), "rel": r.choice(RELS), "v": 1, "k": r.choice(["normal", "normal", "eps", "eps", "minf", "pinf"]), "x": x,
                         "paper": r.random() < 0.3, "box": [[v, *sorted([r.randint(-4, 4), r.randint(-4, 4)])] for v in (2, 3) if r.random() < 0.4] if r.random() < 0.4 else []})
        elif k < 0.90:
            w = r.random()
            val = ["q", r.choice(NUMS)] if w < 0.2 else r.choice(ALGS) if w < 0.6 else ["r", rootpoly(r, nv), r.choice([1, 1, 1, 2])]
            t = {"t": "vc", "v": r.choice([1, 1, 1, 2]), "p": val, "r": r.choice(RELS), "neg": r.random() < 0.3}
            if r.random() < 0.4 and t["v"] == 1:
                cmds.append({"op": "vzeros", "t": t, "v": 1})
            else:
                cmds.append({"op": "vsubst", "t": t, "v": 1, "k": r.choice(["normal", "eps", "minf", "pinf", "normal"]), "x": x})
        else:
            cmds.append({"op": "elim", "v": 1, "cs": [[inx(r, nv, 1, r.choice([1, 1, 2, 2]), 0.3), r.choice(RELS)] for _ in range(r.choice([1, 2]))]})
    return cmds


def generic(r):
    """Substitutes (q + f * sqrt(w)) / d with a variable for every part, at points where q^2 = f^2 * w for all signs, or nearly so."""
    nv = 5
    pts = []
    for _ in range(12):
        f, s, d = r.choice([-2, -1, 0, 1, 2]), r.choice([0, 1, 1, 2, 3]), r.choice([-2, -1, 1, 1, 2])
        q = r.choice([f * s, -f * s, f * s + 1, -f * s - 1, 0])
        pts.append(["0"] + [str(x) for x in (q, f, d, s * s if r.random() < 0.85 else r.choice([2, 3, -1]))])
    v = lambda i: [[[1 if j == i else 0 for j in range(1, nv + 1)], "1"]]
    k = lambda c: [[[0] * nv, c]]
    cmds = [{"op": "begin", "nv": nv, "types": "r" * nv, "pts": pts},
            {"op": "sq", "c": v(2), "f": v(3), "d": v(4) if r.random() < 0.5 else k(r.choice(["1", "2", "-1"])), "q": v(5), "to": 1}]
    for rel in RELS:
        p = {1: r.choice(COEFS)} if r.random() < 0.6 else {1: r.choice(COEFS), 0: r.choice(NUMS[1:])} if r.random() < 0.5 else {2: r.choice(COEFS), r.choice([0, 1]): r.choice(NUMS[1:])}
        cmds.append({"op": "subst", "p": [[[e] + [0] * (nv - 1), c] for e, c in p.items()], "rel": rel, "v": 1, "k": r.choice(["normal", "normal", "eps"]), "x": 1, "paper": r.random() < 0.3, "box": []})
    return cmds


def rootpoly(r, nv):
    vs = [2, 3] if r.random() < 0.8 else [1, 2, 3]
    d = r.choice([1, 1, 1, 2])
    out = [[[0] * nv + [d], r.choice(COEFS)]] if r.random() < 0.8 else [[[0, 1, 0, d], "1"]]
    for k in range(d):
        e = [0] * (nv + 1)
        e[nv] = k
        if r.random() < 0.6:
            e[r.choice(vs) - 1] += 1
        out.append([e, r.choice(COEFS)])
    return out


def run(ctx):
    r = ctx.rng("r")
    ctx.model("MC_Vs", {"Out": "FALSE", "Small": "FALSE"}, invariants=("Laws",), workers=8)
    hd = {"op": "begin", "nv": 2, "types": "rr", "pts": [["0", y] for y in ("-2", "-1", "-1/2", "0", "1", "2")]}
    s = ctx.generate("MC_Vs", {"Out": "TRUE", "Small": "TRUE"}, header=hd)
    s += [session(r, 15) for _ in range(ctx.pick(1000, 12000))]
    s += [generic(r) for _ in range(ctx.pick(250, 3000))]
    ctx.validate("d_vs", "T_Vs", s, source="every test point in every constraint of a family, and random ones")
