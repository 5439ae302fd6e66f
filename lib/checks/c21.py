from gens import integer, mono, nzrat, rat, terms

DRIVERS = ["d_con"]
RELS = ["=", "!=", "<", "<=", ">", ">="]
DY = ["-2", "-3/2", "-1", "-1/2", "0", "0", "1/2", "1", "3/2", "2", "3"]


def point(r, ty):
    return [str(r.randint(-6, 6)) if t == "i" else rat(r, r.choice([0, 1])) for t in ty]


def poly(r, nv):
    x = r.random()
    if x < 0.04:
        return []
    if x < 0.08:
        return [[[0] * nv, nzrat(r, 1)]]
    if x < 0.3:   # univariate, linear
        v = r.randint(0, nv - 1)
        m = [0] * nv
        m[v] = 1
        return [[m, nzrat(r, 1)]] + ([[[0] * nv, nzrat(r, 1)]] if r.random() < 0.8 else [])
    if x < 0.4:   # a power of one variable
        v = r.randint(0, nv - 1)
        m = [0] * nv
        m[v] = r.randint(2, 5)
        return [[m, nzrat(r, 1)]] + ([[[0] * nv, nzrat(r, 1)]] if r.random() < 0.2 else [])
    if x < 0.55:  # sums of squares of terms
        s = r.choice(["", "-"])
        p = [[[2 * e for e in mono(r, nv, 2)], s + str(r.randint(1, 4))] for _ in range(r.randint(1, 3))]
        return merge(p + ([[[0] * nv, r.choice(["", "-"]) + str(r.randint(1, 3))]] if r.random() < 0.4 else []))
    if x < 0.65:  # quadratic forms
        p = []
        for i in range(nv):
            for k in range(i, nv):
                if i == k or r.random() < 0.5:
                    m = [0] * nv
                    m[i] += 1
                    m[k] += 1
                    p.append([m, str(r.randint(1, 3)) if i == k else str(r.choice([-2, -1, 1, 2]))])
        if r.random() < 0.5:
            p.append([[0] * nv, str(r.choice([-1, 1, 2]))])
        if r.random() < 0.4:
            m = [0] * nv
            m[r.randint(0, nv - 1)] = 1
            p.append([m, str(r.choice([-2, -1, 1, 2]))])
        if r.random() < 0.3:
            p = [[m, str(-int(c))] for m, c in p]
        return merge(p)
    if x < 0.8:   # common factors, integer coefficients
        f = r.choice([1, 2, 3, 6])
        p = [[mono(r, nv, r.choice([1, 1, 2])), str(f * r.choice([-3, -2, -1, 1, 2, 3]))] for _ in range(r.randint(1, 3))]
        return merge(p + [[[0] * nv, str(r.randint(-7, 7))]])
    return merge(terms(r, nv, r.randint(1, 4), r.choice([1, 2, 3]), 1))


def merge(p):
    from fractions import Fraction
    d = {}
    for m, c in p:
        d[tuple(m)] = d.get(tuple(m), 0) + Fraction(c)
    return [[list(m), str(c)] for m, c in d.items() if c]


def scaled(r, p):
    from fractions import Fraction
    f = Fraction(r.choice(["-1", "2", "-2", "1/3", "-3/2", "5"]))
    q = [[m, str(Fraction(c) * f)] for m, c in p]
    return q


def shifted(r, nv, p):
    from fractions import Fraction
    return merge(p + [[[0] * nv, str(Fraction(r.choice(["-2", "-1", "1/2", "1", "3"])))]])


def near(r, nv, ty, p):
    """Points at which a linear univariate polynomial is close to zero."""
    from fractions import Fraction
    from math import ceil, floor
    out = [point(r, ty) for _ in range(2)]
    vs = {i for m, _ in p for i in range(nv) if m[i]}
    if len(vs) == 1 and max(sum(m) for m, _ in p) == 1:
        v = vs.pop()
        k = sum(Fraction(c) for m, c in p if m[v])
        d = sum(Fraction(c) for m, c in p if not m[v])
        x = -d / k
        for y in ([floor(x) - 1, floor(x), ceil(x), ceil(x) + 1] if ty[v] == "i" else [x, x - Fraction(1, 1000), x + Fraction(1, 1000)]):
            q = point(r, ty)
            q[v] = str(y)
            out.append(q)
    return out


def ivl(r, ends):
    a, b = sorted((r.choice(ends), r.choice(ends)), key=lambda x: eval(x))
    lt, ut = r.choice("SWWI"), r.choice("SWWI")
    if r.random() < 0.15:
        return [a, "W", a, "W"]
    if a == b:
        lt, ut = ("W" if lt == "S" else lt), ("W" if ut == "S" else ut)
    return ["0" if lt == "I" else a, lt, "0" if ut == "I" else b, ut]


def session(r, n):
    nv = r.choice([1, 1, 2, 2, 3])
    ty = [r.choice("ri") for _ in range(nv)] if r.random() < 0.6 else [r.choice("ri")] * nv
    out = [{"op": "begin", "nv": nv, "types": "".join(ty), "ty": ty}]
    made, k = [], 0
    for _ in range(n):
        x = r.random()
        i = r.randint(0, max(0, k - 1))
        if x < 0.3 or k < 2:
            k += 1
            if r.random() < 0.2:
                b = rat(r, 1)
                v = r.randint(1, nv)
                m = [0] * nv
                m[v - 1] = 1
                out.append({"op": "bound", "v": v, "rel": r.choice(RELS), "b": b, "pts": near(r, nv, ty, merge([[m, "1"], [[0] * nv, b[1:] if b[0] == "-" else "-" + b]]))})
            elif r.random() < 0.05:
                out.append({"op": "bool", "b": r.random() < 0.5})
            else:
                if made and r.random() < 0.5:
                    p = r.choice(made)
                    p = r.choice([lambda: p, lambda: scaled(r, p), lambda: shifted(r, nv, p)])()
                else:
                    p = poly(r, nv)
                made.append(p)
                out.append({"op": "mk", "p": p, "rel": r.choice(RELS), "pts": near(r, nv, ty, p)})
        elif x < 0.36:
            k += 1
            out.append({"op": "neg", "i": i, "pts": [point(r, ty) for _ in range(3)]})
        elif x < 0.39:
            k += 1
            out.append({"op": "copy", "i": i})
        elif x < 0.45:
            out.append({"op": "drop", "i": i})
        elif x < 0.53:
            out.append({"op": "view", "i": i})
        elif x < 0.6:
            out.append({"op": "sat", "i": i, "a": [v if r.random() < 0.75 else "" for v in point(r, ty)]})
        elif x < 0.68:
            box = [ivl(r, DY) if r.random() < 0.93 else [] for _ in range(nv)]
            out.append({"op": "cons", "i": i, "box": box, "pts": inside(r, ty, box)})
        elif x < 0.75:
            box = [ivl(r, DY + ["1/3", "-2/3", "5/7"]) for _ in range(nv)]
            out.append({"op": "eval", "i": i, "box": box, "pts": inside(r, ty, box)})
        elif x < 0.81:
            out.append({"op": "subst", "i": i, "neg": r.random() < 0.4, "excl": r.choice([0, 0, 1, nv])})
        elif x < 0.84:
            out.append({"op": "assign", "i": i})
        elif x < 0.87:
            out.append({"op": "coeff", "i": i, "v": r.randint(1, nv), "d": r.randint(0, 3)})
        elif x < 0.95:
            out.append({"op": "cmp", "i": i, "j": r.randint(0, k - 1), "pts": [point(r, ty) for _ in range(4)]})
        elif x < 0.98:
            out.append({"op": "rel", "i": i, "j": r.randint(0, k - 1)})
        else:
            p = poly(r, nv) if r.random() < 0.4 else [] if r.random() < 0.4 else [[[0] * nv, nzrat(r, 1)]]
            q = p if r.random() < 0.5 else poly(r, nv)
            out.append({"op": "simple", "p": p, "rel": r.choice(RELS), "q": q, "rel2": r.choice(RELS)})
    return out


def inside(r, ty, box):
    from fractions import Fraction
    out = []
    for _ in range(6):
        q = []
        for t, b in zip(ty, box):
            if not b:
                q.append(rat(r, 1) if t == "r" else str(r.randint(-5, 5)))
                continue
            lo = Fraction(b[0]) if b[1] != "I" else Fraction(b[2]) - 5 if b[3] != "I" else Fraction(-5)
            hi = Fraction(b[2]) if b[3] != "I" else lo + 5
            x = lo + (hi - lo) * Fraction(r.choice(["0", "1", "1/2", "1/10", "9/10"]))
            q.append(str(x if t == "r" else x.__ceil__()))
        out.append(q)
    return out


def wire(c):
    return [[[e], k] for e, k in ((2, c[0]), (1, c[1]), (0, c[2])) if k != "0"]


def pairs(ctx, t):
    """Sessions comparing one constraint with all others of the small universe."""
    ctx.model("MC_Con", {"Out": "FALSE", "Typ": f'"{t}"'}, invariants=("Laws",), workers=8)
    by = {}
    for a, b in ctx.generate("MC_Con", {"Out": "TRUE", "Typ": f'"{t}"'}):
        by.setdefault(tuple(a), []).append(b)
    out = []
    for a, bs in by.items():
        s = [{"op": "begin", "nv": 1, "types": t, "ty": [t]}, {"op": "mk", "p": wire(a), "rel": a[3]}, {"op": "view", "i": 0}]
        for n, b in enumerate(bs):
            s += [{"op": "mk", "p": wire(b), "rel": b[3]}, {"op": "cmp", "i": 0, "j": n + 1}, {"op": "drop", "i": n + 1}]
        out.append(s)
    return out


def run(ctx):
    r = ctx.rng("r")
    s = pairs(ctx, "r") + pairs(ctx, "i")
    s += [session(r, 25) for _ in range(ctx.pick(1500, 15000))]
    s += [[{"op": "begin", "nv": 1, "types": t, "ty": [t]}, {"op": "bulk", "n": n}] for t in "ri" for n in (10, 1500, 6000)]
    ctx.validate("d_con", "T_Con", s, source="all small pairs and random histories", skip_rest=True)
