from checks.root_common import *


def ops(r, p, roots):
    w = wire(p)
    return [{"op": "fact", "p": w, "roots": sorted({str(x) for x in roots})}, {"op": "sff", "p": w}, {"op": "sqf", "p": w}]


def run(ctx):
    ctx.model("MC_Root", {"Out": "FALSE", "Deg": ctx.pick("3", "4")}, invariants=("Laws",), workers=8)
    r = ctx.rng("r")
    hdr = {"op": "begin", "nv": 3, "types": "rrr", "ring": "Q"}
    all_ = []
    for p in ctx.generate("MC_Root", {"Out": "TRUE", "Deg": "3"}):
        all_ += ops(r, [Fraction(c) for c in p], [-3, -2, -1, 0, 1, 2, 3, Fraction(1, 3), Fraction(-1, 3), Fraction(1, 2)])
    for _ in range(ctx.pick(2500, 30000)):
        x = r.random()
        if x < 0.75:
            p, roots = product(r)
            all_ += ops(r, p, roots)
        elif x < 0.85:
            p, _ = product(r, 5)
            if r.random() < 0.5:
                p = mul(p, [Fraction(10 ** 12 + 39), Fraction(r.choice([1, -1, 3]))])
            all_ += ops(r, p, [])
        else:
            all_.append({"op": "mfact", "nv": 3, "m": terms(r, 3, r.choice([0, 1, 1, 2, 3]), r.choice([0, 1, 2, 3]), 1), "cons": r.random() < 0.5})
    s = [[hdr] + all_[i:i + 30] for i in range(0, len(all_), 30)]
    ctx.validate("d_root", "T_Root", s, source="all small polynomials and random products", skip_rest=True)
