from checks.c19 import BIN as VBIN, UN, value

DRIVERS = ["d_bvt"]
BIN = VBIN + ["nand", "nor", "xnor", "eq"]
RELS = ["eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"]


def session(r, length):
    k = 5
    w = r.choice([1, 2, 3, 4, 4, 8, 33, 64, 65])
    vw = [w, w, r.choice([1, 2, w])]
    if sum(vw) <= 6:
        from itertools import product
        asg = [[str(x) for x in t] for t in product(*[range(1 << v) for v in vw])]
    else:
        asg = [[str(value(r, v) % (1 << v)) for v in vw] for _ in range(10)]
    out = [{"op": "begin", "k": k, "vw": vw, "asg": asg}]
    size = [1] * (k + 1)
    width = [1] * (k + 1)
    const = r.choice([0.2, 0.5, 0.9])

    def new(d):
        if r.random() < const:
            x = w if r.random() < 0.85 else r.choice([1, 2, w])
            out.append({"op": "const", "d": d, "w": x, "n": str(value(r, x))})
            width[d] = x
        else:
            v = r.randint(1, 3)
            out.append({"op": "var", "d": d, "v": v})
            width[d] = vw[v - 1]
        size[d] = 1

    def reg(wanted=None):
        c = [i for i in range(1, k + 1) if wanted is None or width[i] == wanted]
        return r.choice(c)
    for d in range(1, k + 1):
        new(d)
    old = []
    for _ in range(length):
        d, a = r.randint(1, k), reg()
        b = reg(width[a]) if r.random() < 0.95 else reg()
        x = r.random()
        if size[d] > 24 or x < 0.15:
            new(d)
        elif x < 0.5 and size[a] + size[b] <= 24:
            o = r.choice(BIN)
            c = {"op": "bin", "o": o, "d": d, "a": a, "b": b}
            if o != "concat" and width[a] != width[b]:
                out.append(c)
                continue
            if o == "concat" and width[a] + width[b] > 140:
                continue
            old.append(c)
            out.append(c)
            size[d] = size[a] + size[b] + 1
            width[d] = 1 if o == "eq" else width[a] + width[b] if o == "concat" else width[a]
        elif x < 0.62 and size[a] < 24:
            o = r.choice(UN)
            i = 0 if o in ("not", "neg") else r.choice([1, 2]) if o == "rep" else r.choice([0, 1, 2, width[a], 3])
            n = width[a] * i if o == "rep" else width[a] + i if o in ("extu", "exts") else width[a]
            if n > 140:
                continue
            out.append({"op": "un", "o": o, "d": d, "a": a, "i": i})
            size[d], width[d] = size[a] + 1, n
        elif x < 0.7 and size[a] < 24:
            l = r.randint(0, width[a] - 1)
            h = r.randint(l, width[a] - 1)
            out.append({"op": "ext", "d": d, "a": a, "h": h, "l": l})
            size[d], width[d] = size[a] + 1, h - l + 1
        elif x < 0.8:
            m = []
            for v in r.sample([1, 2, 3], r.choice([1, 1, 2, 3])):
                c = [i for i in range(1, k + 1) if width[i] == vw[v - 1] and size[i] < 8]
                if c:
                    m.append([v, r.choice(c)])
            if m and size[a] < 12:
                out.append({"op": "sub", "d": d, "a": a, "m": m})
                size[d] = size[a] * max(size[i] for _, i in m)
                width[d] = width[a]
        elif x < 0.95:
            if width[a] == width[b]:
                out.append({"op": "con", "rel": r.choice(RELS), "a": a, "b": b})
        else:
            out.append(r.choice([{"op": "tcon", "b": True}, {"op": "tcon", "b": False}, {"op": "rel", "rel": r.choice(RELS)}, {"op": "ord", "a": a, "b": b}]))
        if r.random() < 0.2:
            out.append({"op": "ord", "a": reg(), "b": reg()})
    return out


def folding(w, step):
    """Every operator and relation on pairs of constants, and of a variable with a constant."""
    out = []
    vw = [w]
    asg = [[str(i)] for i in range(1 << w)]
    for x in range(0, 1 << w, step):
        s = [{"op": "begin", "k": 3, "vw": vw, "asg": asg}, {"op": "const", "d": 1, "w": w, "n": str(x)}]
        s += [{"op": "un", "o": o, "d": 3, "a": 1, "i": i} for o in UN for i in ([0] if o in ("not", "neg") else [1, 2] if o == "rep" else range(0, 2 * w + 1))]
        s += [{"op": "ext", "d": 3, "a": 1, "h": h, "l": l} for h in range(w) for l in range(h + 1)]
        for y in list(range(1 << w)) + [None]:
            for flip in ((False,) if y is not None else (False, True)):
                s.append({"op": "const", "d": 2, "w": w, "n": str(y)} if y is not None else {"op": "var", "d": 2, "v": 1})
                a, b = (2, 1) if flip else (1, 2)
                s += [{"op": "bin", "o": o, "d": 3, "a": a, "b": b} for o in BIN]
                s += [{"op": "con", "rel": o, "a": a, "b": b} for o in RELS]
                if y is None and not flip:
                    for o in BIN:
                        s += [{"op": "bin", "o": o, "d": 3, "a": 2, "b": 1}, {"op": "sub", "d": 3, "a": 3, "m": [[1, 1]]}]
        out.append(s)
    return out


def run(ctx):
    ctx.model("MC_BV", {"W": ctx.pick(2, 3)}, invariants=("Laws",))
    ctx.validate("d_bvt", "T_BVT", [s for w in range(1, ctx.pick(4, 5)) for s in folding(w, 1)], source="constants", skip_rest=False)
    r = ctx.rng("r")
    ctx.validate("d_bvt", "T_BVT", [session(r, 20) for _ in range(ctx.pick(900, 12000))], source="random", skip_rest=True)
