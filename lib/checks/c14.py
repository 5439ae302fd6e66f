import math
from fractions import Fraction as F

from gens import terms

DRIVERS = ["d_box"]


def dy(r):
    """A small dyadic number: exact as double."""
    x = r.random()
    if x < 0.4:
        return F(r.randint(-4, 4))
    if x < 0.8:
        return F(r.randint(-64, 64), r.choice([2, 4, 8, 16]))
    if x < 0.9:
        return F(r.randint(-10 ** 6, 10 ** 6), 1024)
    return F(r.random() - 0.5)


def interval(r, num):
    a, b = sorted((dy(r), dy(r)))
    if num == "q" and r.random() < 0.4:
        a, b = a - F(r.randint(0, 5), 7), b + F(r.randint(0, 5), 3)
    lt, ut = r.choice("SWWWWI"), r.choice("SWWWWI")
    if r.random() < 0.1:
        b = a
    if a == b and "I" not in (lt, ut):
        lt = ut = "W"
    if lt == "I":
        a = b
    if ut == "I":
        b = a
    return [str(a), lt, str(b), ut]


def member(r, iv, integral=False):
    a, lt, b, ut = F(iv[0]), iv[1], F(iv[2]), iv[3]
    if integral:
        lo = None if lt == "I" else (a.__ceil__() if lt == "W" else a.__floor__() + 1)
        hi = None if ut == "I" else (b.__floor__() if ut == "W" else b.__ceil__() - 1)
        if lo is None and hi is None:
            return F(r.randint(-9, 9))
        if lo is None:
            return F(hi - r.choice([0, 0, 1, 2, 9, 100]))
        if hi is None:
            return F(lo + r.choice([0, 0, 1, 2, 9, 100]))
        if lo > hi:
            return None
        return F(r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)]))
    if lt == "I" and ut == "I":
        return r.choice([F(0), F(1), F(-1), dy(r), F(10 ** 9), F(-10 ** 9), F(r.randint(-50, 50), 7)])
    d = r.choice([F(1, 10 ** 6), F(1, 3), F(1), F(17, 5), F(10 ** 6)])
    if lt == "I":
        return b if ut == "W" and r.random() < 0.4 else b - d
    if ut == "I":
        return a if lt == "W" and r.random() < 0.4 else a + d
    x = r.random()
    if lt == "W" and x < 0.25 or a == b:
        return a
    if ut == "W" and x < 0.5:
        return b
    t = r.choice([F(1, 2), F(1, 10 ** 9), 1 - F(1, 10 ** 9), F(r.randint(1, 99), 100)])
    x = a + (b - a) * t
    if r.random() < 0.3 and lt == "W" and ut == "W" and a <= 0 <= b:
        return F(0)
    return x


def point(r, types, box):
    p = [member(r, iv, t == "int") for t, iv in zip(types, box)]
    return None if None in p else p


def ev(p, a):
    s = F(0)
    for m, c in p:
        t = F(c)
        for e, x in zip(m, a):
            t *= x ** e
        s += t
    return s


def merge(p):
    d = {}
    for m, c in p:
        d[tuple(m)] = d.get(tuple(m), F(0)) + F(c)
    return [[list(m), str(c)] for m, c in d.items() if c != 0]


def strs(a):
    return [str(x) for x in a]


def evals(r, nv, types):
    num = r.choice("qd")
    kind = r.choice(["mono", "term", "mp", "mp", "mp", "up", "horner"])
    box = [interval(r, num) for _ in range(nv)]
    p = merge(terms(r, nv, r.randint(1, 5), r.choice([2, 3, 5]), 2, False))
    if kind in ("mono", "term"):
        m = [r.choice([0, 1, 1, 2, 3]) for _ in range(nv)]
        if not any(m):
            m[0] = r.randint(1, 4)
        p = [[m, "1" if kind == "mono" else r.choice(["-3", "2/3", "-1/7", "5"])]]
    if kind == "up" and (not p or all(m[0] == 0 for m, _ in p)):
        kind = "mp"
    pts = [strs(point(r, ["real"] * nv, box)) for _ in range(8)]
    return {"op": "eval", "kind": kind, "num": num, "p": p, "box": box, "pts": pts, "v": 1}


def holds(rel, v):
    return {"eq": v == 0, "lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[rel]


def contraction(r, nv, types):
    box = [interval(r, "d") for _ in range(nv)]
    if r.random() < 0.3:
        box = [[str(-F(r.randint(0, 40), 4)), r.choice("SWW"), str(F(r.randint(1, 40), 4)), r.choice("SWW")] for _ in range(nv)]
    a = point(r, types, box)
    if a is None:
        return None
    prop = nv >= 2 and r.random() < 0.4
    rel = "eq"
    how = r.choice(["newton", "newton2", "con", "con", "eval", "evaluation"])
    if prop:
        how = r.choice(["newton", "newton2"])
        if r.random() < 0.3:
            # linear without constant part, vanishing at a
            cs = [F(r.randint(-4, 4), r.choice([1, 2, 3])) for _ in range(nv)]
            k = r.randrange(nv)
            if a[k] == 0:
                return None
            cs[k] = -(sum(c * x for i, (c, x) in enumerate(zip(cs, a)) if i != k)) / a[k]
            p = merge([[[1 if j == i else 0 for j in range(nv)], c] for i, c in enumerate(cs)])
        else:
            y = r.randrange(nv)
            m = [0 if i == y else r.choice([0, 1, 1, 2, 2, 3, 4]) for i in range(nv)]
            if sum(m) < 2:
                return None
            val = F(1)
            for e, x in zip(m, a):
                val *= x ** e
            if types[y] == "int" and val.denominator != 1:
                return None
            a[y] = val
            box[y] = around(r, val)
            p = [[m, "1"], [[1 if i == y else 0 for i in range(nv)], "-1"]]
        pts = [a]
    else:
        q = merge(terms(r, nv, r.randint(1, 4), r.choice([1, 2, 3]), 2, False))
        if how == "con" or how == "eval":
            rel = r.choice(["eq", "lt", "le", "gt", "ge"])
        v = ev(q, a)
        shift = F(0) if rel == "eq" else (F(r.choice([0, 0, 1, 5]), r.choice([1, 3])) + (F(1, 1000) if rel in ("lt", "gt") else 0)) * (-1 if rel in ("lt", "le") else 1)
        p = merge(q + [[[0] * nv, shift - v]])
        pts = [a]
        for _ in range(6):
            b = point(r, types, box)
            if b is not None and holds(rel, ev(p, b)):
                pts.append(b)
    vs = [i + 1 for i in range(nv) if any(m[i] for m, _ in p)]
    if not vs:
        return None
    if how in ("con", "eval"):
        vs2 = [v for v in vs]
        v = r.choice(vs2)
    else:
        v = r.choice(vs)
    return {"op": "contract", "how": how, "p": p, "rel": rel, "box": box, "v": v, "pts": [strs(b) for b in pts],
            "prop": prop, "nice": r.random() < 0.5, "sub": how in ("con", "newton", "newton2")}


def around(r, x):
    """An interval with double ends around a rational."""
    lo, hi = F(float(x)), F(float(x))
    d = F(r.choice([0, 1, 3, 100]), r.choice([1, 2, 16]))
    lo, hi = F(float(lo - d)), F(float(hi + d * r.choice([1, 2])))
    while lo > x:
        lo = F(math.nextafter(float(lo), -math.inf))
    while hi < x:
        hi = F(math.nextafter(float(hi), math.inf))
    lt, ut = r.choice("WWI"), r.choice("WWI")
    if lt == "I":
        lo = hi
    if ut == "I":
        hi = lo
    if lt == "I" and ut != "I" and hi < x or ut == "I" and lt != "I" and lo > x:
        return around(r, x)
    return [str(lo), lt, str(hi), ut]


def session(r, n):
    nv = r.choice([1, 2, 2, 3, 3])
    types = [r.choice(["real", "real", "int"]) for _ in range(nv)]
    out = [{"op": "begin", "nv": nv, "types": types}]
    while len(out) <= n:
        x = r.random()
        if x < 0.08:
            num = r.choice("qd")
            i = interval(r, num)
            if r.random() < 0.5:      # touching zero
                i = r.choice([["0", r.choice("SW"), "3", r.choice("SW")], ["-3", r.choice("SW"), "0", r.choice("SW")], ["0", r.choice("SW"), "0", "I"], ["0", "I", "0", r.choice("SW")], ["0", "W", "0", "W"]])
            out.append({"op": "decide", "num": num, "i": i, "rel": r.choice(["eq", "ne", "lt", "le", "gt", "ge"])})
        elif x < 0.4:
            out.append(evals(r, nv, types))
        elif x < 0.95:
            c = contraction(r, nv, types)
            if c:
                out.append(c)
        else:
            out.append({"op": "normalize", "l": [interval(r, "d") for _ in range(r.randint(0, 5))]})
    return out


def run(ctx):
    ctx.model("MC_Box", {"Out": "FALSE"}, invariants=("Laws",), workers=8)
    gen = ctx.generate("MC_Box", {"Out": "TRUE"}, header={"op": "begin", "nv": 2, "types": ["real", "real"]})
    r = ctx.rng("r")
    s = [session(r, 25) for _ in range(ctx.pick(900, 12000))]
    ctx.validate("d_box", "T_Box", gen + s, source="tlc and random inputs")
