from fractions import Fraction

from gens import rat

DRIVERS = ["d_fivl"]


def dbl(r):
    """A finite double as exact fraction; the exponents go up to the limits."""
    x = r.random()
    if x < 0.3:
        return Fraction(r.choice([0, 0, 1, -1, 2, -2, 3, -3, 5, 7, "1/2", "-1/2"]))
    if x < 0.5:
        return Fraction(r.randint(-100, 100) / 10)
    if x < 0.75:
        return Fraction(r.choice([1, -1]) * (1 + r.random()) * 2.0 ** r.randint(-6, 6))
    if x < 0.92:
        return Fraction(r.choice([1, -1]) * (1 + r.random()) * 2.0 ** r.choice([-1000, -600, -500, -300, -60, -30, 30, 52, 53, 60, 300, 500, 600, 1000]))
    return Fraction(r.choice([1, -1]) * r.choice([5e-324, 2.2250738585072014e-308, 1.7976931348623157e+308, 1e-310, 1 + 2 ** -52, 1 - 2 ** -53, 2.0 ** 53, 0.1, 1 / 3]))


def ends(r, f):
    a, b = sorted((f(r), f(r)))
    x = r.random()
    if x < 0.12:
        b = a
    elif x < 0.24:
        a, b = -abs(b), abs(b)
    lt, ut = r.choice("SWWWI"), r.choice("SWWWI")
    if a == b and "I" not in (lt, ut):
        lt = ut = "W"
    if lt == "I":
        a = b
    if ut == "I":
        b = a
    return [str(a), lt, str(b), ut]


def ratn(r):
    x = r.random()
    if x < 0.5:
        return Fraction(rat(r, 2))
    if x < 0.8:
        return Fraction(r.randint(-10 ** 6, 10 ** 6), r.randint(1, 10 ** 6))
    if x < 0.9:
        return dbl(r) + Fraction(r.choice([0, 0, 1, -1]), 10 ** r.choice([5, 30, 400]))
    return Fraction(r.choice([1, -1]) * (10 ** r.randint(300, 320) + r.randint(0, 5)), r.choice([1, 3, 10 ** 10, 10 ** 500]))


def lit(r, d):
    x = r.random()
    if x < 0.7:
        return {"op": "lit", "d": d, "x": ends(r, dbl), "how": r.choice(["dbl", "dbl", "boost"])}
    e = ends(r, ratn)
    if x < 0.78:
        return {"op": "lit", "d": d, "x": [e[0], "W", e[0], "W"], "how": "pt"}
    if x < 0.85:
        return {"op": "lit", "d": d, "x": [e[0], "W", e[2], "W"], "how": "rat2"}
    return {"op": "lit", "d": d, "x": e, "how": r.choice(["rat", "conv", "convert"])}


def session(r, n, k=4):
    out = [{"op": "begin", "k": k}] + [lit(r, i) for i in range(1, k + 1)]
    for _ in range(n):
        a, b, d = (r.randint(1, k) for _ in range(3))
        x = r.random()
        if x < 0.2:
            out.append(lit(r, d))
        elif x < 0.38:
            out.append({"op": "bin", "f": r.choice(["add", "sub", "mul", "mul"]), "a": a, "b": b, "d": d})
        elif x < 0.44:
            out.append({"op": "inp", "f": r.choice(["add", "sub", "mul"]), "a": a, "b": b})
        elif x < 0.52:
            out.append({"op": "num", "f": r.choice(["add", "sub", "rsub", "mul", "div"]), "a": a, "d": d, "c": str(dbl(r)), "flip": r.random() < 0.5})
        elif x < 0.6:
            out.append({"op": "div", "a": a, "b": b, "d": d})
        elif x < 0.67:
            out.append({"op": "divext", "a": a, "b": b})
        elif x < 0.7:
            out.append({"op": "recip", "a": a})
        elif x < 0.75:
            out.append({"op": "pow", "a": a, "d": d, "n": r.randint(0, 5), "how": r.choice(["in", "f"])})
        elif x < 0.78:
            out.append({"op": "sqrt", "a": a, "d": d, "n": 2})
        elif x < 0.82:
            out.append({"op": "root", "a": a, "d": d, "n": r.randint(2, 5), "how": r.choice(["in", "f"])})
        elif x < 0.9:
            o = r.choice(["neg", "abs", "floor", "ceil", "int", "copy"])
            out.append({"op": o, "a": a, "d": d, "how": r.choice(["m", "inv"])})
        elif x < 0.94:
            out.append({"op": r.choice(["hull", "cap", "union"]), "a": a, "b": b, "d": d})
        elif x < 0.96:
            out.append({"op": "exact", "a": a, "how": r.choice(["conv", "convert"])})
        elif x < 0.98:
            out.append({"op": "in", "a": a, "c": str(dbl(r))})
        else:
            q = ratn(r)
            out.append({"op": "round", "c": str(q), "exact": False})
            q = dbl(r)
            out.append({"op": "round", "c": str(q), "exact": True})
    return out


def run(ctx):
    ctx.model("MC_FIvl", {"Depth": ctx.pick(3, 4), "Out": "FALSE"}, invariants=("Sound", "Contract"), workers=8)
    gen = ctx.generate("MC_FIvl", {"Depth": 12, "Out": "TRUE"}, simulate=ctx.pick(300, 5000), depth=13, header={"op": "begin", "k": 2})
    r = ctx.rng("r")
    s = [session(r, 20) for _ in range(ctx.pick(2500, 30000))]
    ctx.validate("d_fivl", "T_FIvl", gen + s, source="tlc and random histories", skip_rest=True)
