DRIVERS = ["d_bv"]
BIN = ["and", "or", "xor", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "smod", "shl", "lshr", "ashr", "concat"]
UN = ["not", "neg", "lrot", "rrot", "rep", "extu", "exts"]
WIDTHS = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200]


def value(r, w):
    k = r.random()
    if k < 0.5:
        return r.choice([0, 1, 2, 3, -1, -2, -3, w, w - 1, w + 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, 1 << (w // 2), (1 << w) - w, w // 2])
    if k < 0.6:
        return r.randint(-(1 << (w + 3)), 1 << (w + 3))
    return r.getrandbits(w) >> r.choice([0, 0, 0, w // 2])


def session(r, length):
    k = 4
    w = r.choice(WIDTHS)
    out = [{"op": "begin", "k": k}]
    reg = lambda: r.randint(1, k)

    def new(d):
        x = w if r.random() < 0.93 else r.choice(WIDTHS)
        v = value(r, x)
        if r.random() < 0.2:
            out.append({"op": "str", "d": d, "s": list(bin(v % (1 << x))[2:].rjust(x, "0")), "how": r.choice(["all", "off"])})
        else:
            out.append({"op": "int", "d": d, "w": x, "n": str(v), "how": r.choice("uz")})
    for d in range(1, k + 1):
        new(d)
    for _ in range(length):
        a, b, d = reg(), reg(), reg()
        x = r.random()
        if x < 0.2:
            new(d)
        elif x < 0.6:
            out.append({"op": "bin", "o": r.choice(BIN[:-1]), "d": d, "a": a, "b": b})
        elif x < 0.72:
            out.append({"op": "un", "o": r.choice(UN[:4]), "d": d, "a": a, "i": r.choice([0, 1, w - 1, w, w + 1, 2 * w, 3 * w + 2, r.randint(0, 70)])})
        elif x < 0.82:
            out.append({"op": "cmp", "a": a, "b": b})
        elif x < 0.88:
            out.append({"op": "flip", "a": a, "i": r.randint(0, 200)})
        elif x < 0.96:
            y = r.random()
            if y < 0.35:
                out.append({"op": "bin", "o": "concat", "d": d, "a": a, "b": b})
            elif y < 0.7:
                o = r.choice(UN[4:])
                out.append({"op": "un", "o": o, "d": d, "a": a, "i": r.choice([1, 2, 3]) if o == "rep" else r.choice([0, 1, 5, 63, 64])})
            else:
                l = r.randint(0, w - 1)
                out.append({"op": "ext", "d": d, "a": a, "l": l, "h": r.randint(l, w - 1)})
            out.append({"op": "view", "a": d, "i": r.randint(0, 300)})
            new(d)
        else:
            out.append({"op": "view", "a": a, "i": r.randint(0, 300)})
    return out


def pairs(w):
    out = []
    for x in range(1 << w):
        s = [{"op": "begin", "k": 3}, {"op": "int", "d": 1, "w": w, "n": str(x if x % 2 else x - (1 << w)), "how": "u"}, {"op": "view", "a": 1, "i": x}]
        s += [{"op": "un", "o": o, "d": 3, "a": 1, "i": i} for o in UN for i in range(0, 2 * w + 1) if (o != "rep" or 0 < i < 4) and (i == 0 or o not in ("not", "neg"))]
        s += [{"op": "ext", "d": 3, "a": 1, "h": h, "l": l} for h in range(w) for l in range(h + 1)]
        for y in range(1 << w):
            s.append({"op": "int", "d": 2, "w": w, "n": str(y), "how": "u" if y % 2 else "z"})
            s += [{"op": "bin", "o": o, "d": 3, "a": 1, "b": 2} for o in BIN] + [{"op": "cmp", "a": 1, "b": 2}]
        out.append(s)
    return out


def run(ctx):
    ctx.model("MC_BV", {"W": ctx.pick(3, 4)}, invariants=("Laws",))
    ctx.validate("d_bv", "T_BV", [s for w in range(1, ctx.pick(5, 7)) for s in pairs(w)], source="all pairs", skip_rest=False)
    r = ctx.rng("r")
    ctx.validate("d_bv", "T_BV", [session(r, 14) for _ in range(ctx.pick(1200, 16000))], source="random", skip_rest=True)
