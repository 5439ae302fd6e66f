from fractions import Fraction
from itertools import product

from gens import integer, rat

DRIVERS = ["d_rel"]
RELS = ["=", "!=", "<", "<=", ">", ">="]


def run(ctx):
    gen = ctx.generate("MC_Rel", invariants=("Laws",), header={"op": "begin"})
    r = ctx.rng("r")
    gen += [[{"op": "begin"}] + [{"op": "pair", "rel": a, "rel2": b} for a, b in product(RELS, RELS)]]
    gen += [[{"op": "begin"}] + [{"op": "var", "l": list(l)} for l in product([-1, 0, 1], repeat=n)] for n in range(ctx.pick(7, 9))]
    for _ in range(ctx.pick(400, 4000)):
        s = [{"op": "begin"}]
        for _ in range(20):
            ty = r.choice("qqzid")
            n = rat(r, 2) if ty == "q" else integer(r, 2) if ty == "z" else str(r.randint(-1000, 1000)) if ty == "i" else integer(r, 1)
            s.append({"op": "num", "rel": r.choice(RELS), "c": n, "ty": ty})
            ty = r.choice("qqid")
            f = (lambda: rat(r, 2)) if ty == "q" else (lambda: str(r.randint(-9, 9)))
            a = f()
            s.append({"op": "cmp", "rel": r.choice(RELS), "a": a, "b": a if r.random() < 0.2 else f(), "ty": ty})
            a = r.randint(-9, 9)
            s.append({"op": "cmp", "rel": r.choice(RELS), "a": str(a), "b": str(a + Fraction(r.choice([-1, 0, 1, 1]) * r.randint(0, 24), 8)), "ty": r.choice(["id", "ld"])})
            s.append({"op": "var", "l": [r.choice([-1, 0, 0, 1]) for _ in range(r.randint(0, 30))]})
        gen.append(s)
    ctx.validate("d_rel", "T_Rel", gen, source="tlc, all short sign lists and random inputs")
