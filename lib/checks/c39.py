"""Elementary functions of floating-point intervals (Elem.tla)."""
from fractions import Fraction

DRIVERS = ["d_elem"]
DOM = {"asin": (-1, 1), "acos": (-1, 1), "atanh": (-1, 1), "log": (0, None), "acosh": (1, None)}
FNS = ["exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"]


def number(r, fn):
    """A double, mostly in or near the domain."""
    x = r.random()
    if fn == "log":
        return Fraction(r.choice([0, 1, 0.5, 3, r.random(), 1 + r.random() * 10, r.random() * 1000]))
    if fn in ("asin", "acos", "atanh"):
        return Fraction(r.choice([-1, 1, 0, 0.5, -0.5]) if x < 0.25 else r.uniform(-1, 1) if x < 0.8 else r.uniform(-3, 3))
    if fn in ("asinh", "acosh") and x < 0.2:
        return Fraction(r.uniform(-1000, 1000))
    return Fraction(r.randint(-16, 16) / 4 if x < 0.3 else r.uniform(-2, 2) if x < 0.6 else r.uniform(-7.5, 7.5))


def case(r):
    fn = r.choice(FNS)
    while True:
        a, b = sorted((number(r, fn), number(r, fn)))
        if r.random() < 0.1:
            b = a
        lt, ut = r.choice("SWWI" if fn != "log" else "SW"), r.choice("SWWI")
        if a == b and "I" not in (lt, ut):
            lt = ut = "W"
        lo, hi = DOM.get(fn, (None, None))
        # some point of the domain is inside
        if lo is not None and ut != "I" and b <= lo and not (b == lo and ut == "W" and fn != "log" and fn != "atanh"):
            continue
        if hi is not None and lt != "I" and a >= hi and not (a == hi and lt == "W" and fn != "atanh"):
            continue
        if lt == "I":
            a = b
        if ut == "I":
            b = a
        if lt == ut == "I":
            a = b = Fraction(0)
        return {"op": "el", "fn": fn, "x": [str(a), lt, str(b), ut]}


def run(ctx):
    ctx.model("MC_Elem", {"Out": "FALSE", "N": ctx.pick(7, 8)}, invariants=("Laws",), workers=8)
    hd = {"op": "begin"}
    gen = ctx.generate("MC_Elem", {"Out": "TRUE", "N": ctx.pick(4, 6)}, header=hd)
    r = ctx.rng("elem")
    gen += [[hd] + [case(r) for _ in range(10)] for _ in range(ctx.pick(120, 3000))]
    ctx.validate("d_elem", "T_Elem", gen, source="all intervals on a grid and random ones")
