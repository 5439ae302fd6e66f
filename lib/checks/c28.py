"""Real algebraic numbers (Ran.tla)."""
from fractions import Fraction

from gens import rat, terms
from checks.root_common import ivl, mul, near, product, small, trim, wire

DRIVERS = ["d_ran"]
RELS = ["eq", "ne", "lt", "le", "gt", "ge"]
# Irreducible or otherwise close together: roots that share enclosures.
FACTORS = [[-2, 0, 1], [-3, 0, 1], [-8, 0, 4], [-1, -1, 1], [1, -3, 1], [-2, 0, 0, 1], [-1, -1, 0, 1], [1, -4, 0, 2], [-2, 0, 0, 0, 1], [1, 0, 1], [1, 0, -10, 0, 1],
           [-1, 2], [2, 3], [0, 1], [-7, 5], [-201, 0, 100], [-199, 0, 100], [-20001, 0, 10000], [-5, 0, 0, 0, 0, 1]]


ROOTS = []


def poly(r, deg=6):
    u = r.random()
    if u < 0.25:
        p, q = product(r, deg)
        ROOTS.extend(q)
        return p
    if u < 0.35:
        return trim([Fraction(rat(r, 2)) for _ in range(r.randint(1, 5))])
    p = [Fraction(r.choice([1, -1, 1, 2, "1/3"]))]
    for _ in range(r.randint(1, 3)):
        f = [Fraction(x) for x in r.choice(FACTORS)]
        if len(p) + len(f) - 2 <= deg:
            p = mul(p, f)
    return p


def anyivl(r):
    v = ivl(r, ROOTS[-6:])
    if r.random() < 0.3:
        v[0], v[1] = "0", "I"
    if r.random() < 0.3:
        v[2], v[3] = "0", "I"
    return v


FULL = ["0", "I", "0", "I"]


def session(r, n):
    nv = 3
    s = [{"op": "begin", "nv": nv}]
    ROOTS.clear()
    pool = [poly(r) for _ in range(3)]
    H = 0
    for _ in range(n):
        u = r.random()
        i, j = r.randint(1, H + 1) if H < 3 else r.randint(max(1, H - 9), H), r.randint(1, H + 1) if H < 3 else r.randint(max(1, H - 9), H)
        if u < 0.13 or H == 0:
            p = r.choice(pool) if r.random() < 0.6 else poly(r)
            s.append({"op": "roots", "p": wire(p), "iv": FULL if r.random() < 0.5 else anyivl(r), "kind": r.choice(["q", "q", "mp"])})
            H += 2
        elif u < 0.18:
            s.append({"op": "num", "c": str(near(r, ROOTS[-6:]))})
            H += 1
        elif u < 0.19:
            s.append({"op": "zero"})
            H += 1
        elif u < 0.27:
            p = r.choice(pool) if r.random() < 0.6 else poly(r)
            a = near(r, ROOTS[-6:])
            s.append({"op": "mk", "p": wire(p), "l": str(a), "u": str(a + Fraction(r.choice([1, 2, 3, "1/2", "3/2", 7, "1/10"]))), "safe": r.random() < 0.4})
            H += 1
        elif u < 0.31:
            s.append({"op": "copy", "i": i})
            H += 1
        elif u < 0.33:
            s.append({"op": "set", "i": i, "j": j})
        elif u < 0.40:
            s.append({"op": "refine", "i": i})
        elif u < 0.55:
            s.append({"op": r.choice(["cmp", "cmp", "compare"]), "i": i, "j": j, "rel": r.choice(RELS)})
        elif u < 0.61:
            s.append({"op": "cmpn", "i": i, "c": str(near(r, ROOTS[-6:])), "rel": r.choice(RELS), "flip": r.random() < 0.5})
        elif u < 0.63:
            s.append({"op": "sgn", "i": i})
        elif u < 0.68:
            s.append({"op": r.choice(["sgnp", "sgnp", "isroot"]), "i": i, "p": wire(r.choice(pool) if r.random() < 0.5 else poly(r, 4))})
        elif u < 0.75:
            s.append({"op": "query", "i": i})
        elif u < 0.78:
            s.append({"op": "abs", "i": i})
            H += 1
        elif u < 0.83:
            s.append({"op": "between", "i": i, "j": j})
        elif u < 0.86:
            s.append({"op": "betweenn", "i": i, "c": str(near(r, ROOTS[-6:])), "flip": r.random() < 0.5})
        elif u < 0.90:
            s.append({"op": "inside", "i": i, "iv": anyivl(r)})
        elif u < 0.91:
            s.append({"op": "nums", "c": str(near(r, ROOTS[-6:])), "d": str(near(r, ROOTS[-6:]))})
        elif u < 0.94:
            a = [r.randint(1, H) if r.random() < 0.8 else 0 for _ in range(nv)]
            v = r.randint(1, nv)
            a[v - 1] = 0
            s.append({"op": "rootsat", "m": terms(r, nv, r.randint(1, 4), 3), "v": v, "a": a, "iv": FULL if r.random() < 0.6 else anyivl(r), "van": r.random() < 0.25})
        else:
            k = r.choice([1, 1, 2])
            vs = r.sample(range(1, nv + 1), k)
            m = []
            for t in terms(r, nv, r.randint(1, 3), 2, 1, True, False):
                t[0] = [e if q + 1 in vs else 0 for q, e in enumerate(t[0])]
                if t[0] not in [x[0] for x in m]:
                    m.append(t)
            a = [r.randint(max(1, H - 5), H) if q + 1 in vs else 0 for q in range(nv)]
            c = {"op": "eval", "m": m, "a": a, "refine": r.random() < 0.6, "kind": r.choice(["eval", "eval", "evaluator", "stepwise"])}
            if r.random() < 0.6:
                c = {"op": "con", "m": m, "a": a, "refine": r.random() < 0.6, "bounds": r.random() < 0.7, "rel": r.choice(RELS)}
            else:
                H += 1
            s.append(c)
    return s


def run(ctx):
    r = ctx.rng("r")
    ctx.model("MC_Ran", {"Out": "FALSE", "Cs": '{"-2", "0", "1"}', "D": ctx.pick(2, 3), "Depth": ctx.pick(3, 4)}, invariants=("Keeps",), props=("Fixed",), workers=8)
    g = []
    for h in ctx.generate("MC_Ran", {"Out": "TRUE", "Cs": '{"-2", "0", "1"}' if ctx.quick else '{"-2", "-1", "0", "1", "3"}', "D": 3, "Depth": 1}):
        g.append([{"op": "begin", "nv": 2}] + h)
    r.shuffle(g)
    s = g[:ctx.pick(1500, 20000)] + [session(r, 16) for _ in range(ctx.pick(300, 5000))]
    ctx.validate("d_ran", "T_Ran", s, source="pairs of small polynomials and random histories")
