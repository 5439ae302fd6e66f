from checks.root_common import *


def ops(r, p, roots, n):
    w = wire(p)
    out = [{"op": "bounds", "p": w}, {"op": "sturm", "p": w, "q": [], "two": False}]
    for _ in range(n):
        x = r.random()
        if x < 0.35:
            out.append({"op": "count", "p": w, "iv": ivl(r, roots)})
        elif x < 0.65:
            out.append({"op": "desc", "p": w, "iv": ivl(r, roots)})
        elif x < 0.75:
            q, _ = product(r, 4) if r.random() < 0.8 else ([], [])
            out.append({"op": "sturm", "p": w, "q": wire(q), "two": True})
        elif x < 0.8:
            out.append({"op": "zero", "p": w})
        elif x < 0.92:
            out.append({"op": "elim", "p": w, "c": str(r.choice(roots) if roots else small(r))})
        else:
            out.append({"op": "signs", "l": [r.choice(["0", "0", "1", "-1", rat(r, 1)]) for _ in range(r.randint(0, 7))]})
    return out


def run(ctx):
    ctx.model("UniCheck", workers=8)
    ctx.model("MC_Root", {"Out": "FALSE", "Deg": ctx.pick("3", "4")}, invariants=("Laws",), workers=8)
    r = ctx.rng("r")
    hdr = {"op": "begin", "nv": 1, "types": "r", "ring": "Q"}
    all_ = []
    for p in ctx.generate("MC_Root", {"Out": "TRUE", "Deg": "3"}):
        p = [Fraction(c) for c in p]
        all_ += ops(r, p, [Fraction(c) for c in (-1, 0, 1)], 4) + [{"op": "zero", "p": wire(p)}]
    for _ in range(ctx.pick(1500, 20000)):
        p, roots = product(r) if r.random() < 0.7 else sparse(r)
        all_ += ops(r, p, roots, 6)
    s = [[hdr] + all_[i:i + 40] for i in range(0, len(all_), 40)]
    ctx.validate("d_root", "T_Root", s, source="all small polynomials, random products and sparse polynomials", skip_rest=True)
