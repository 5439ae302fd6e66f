from checks.num_common import integer

DRIVERS = ["d_gf"]
FIELDS = [[2, 1], [3, 1], [5, 1], [7, 1], [2, 2], [2, 3], [3, 2], [5, 2], [11, 1], [13, 1], [97, 1], [7, 3], [65521, 1], [65537, 2],
          [2, 40], [2147483647, 1], [2147483647, 2], [1000003, 5]]


def session(r, length):
    fs = r.sample(FIELDS, 2) if r.random() < 0.6 else r.sample(FIELDS[:9], 2)
    sizes = [p ** e for p, e in fs]
    k = 4
    out = [{"op": "begin", "fields": fs, "k": k}]
    reg = lambda: r.randint(1, k)
    g = lambda: r.choice(["add", "sub", "mul"])

    def num(f):
        m = sizes[f - 1] if f else 9
        x = r.random()
        if x < 0.3:
            return str(r.choice([m, -m, m // 2, -(m // 2), m // 2 + 1, -(m // 2) - 1, m - 1, 1 - m, m + 1, 2 * m, -3 * m + 1]))
        if x < 0.8:
            return str(r.randint(-2 * m, 2 * m))
        return str(integer(r))
    main = r.choice([1, 1, 2])
    fld = lambda: r.choice([main] * 8 + [0, 1, 2])

    def new(d):
        f = fld()
        out.append({"op": "new", "d": d, "f": f, "n": num(main), "how": r.choice(["ctor", "from", "togf"])})
    for d in range(1, k + 1):
        new(d)
    for _ in range(length):
        a, b, d = reg(), reg(), reg()
        x = r.random()
        if x < 0.12:
            new(d)
        elif x < 0.27:
            out.append({"op": "bin", "g": g(), "d": d, "a": a, "b": b})
        elif x < 0.4:
            out.append({"op": "inp", "g": g(), "a": a, "b": b})
        elif x < 0.55:
            out.append({"op": r.choice(["binz", "zbin", "inpz"]), "g": g(), "d": d, "a": a, "n": num(main)})
        elif x < 0.65:
            out.append({"op": r.choice(["inc", "dec", "norm", "neg", "copy"]), "d": d, "a": a})
        elif x < 0.8:
            out.append({"op": r.choice(["inv", "div", "divin"]), "d": d, "a": a, "b": b, "how": r.choice(["quo", "op"])})
        elif x < 0.84:
            out.append({"op": "togf", "d": d, "a": a, "f": r.choice([0, 1, 2, main, main]), "how": r.choice(["from", "to"])})
        elif x < 0.88:
            out.append({"op": "mod", "f": r.choice([1, 2]), "n": num(main), "how": r.choice(["sym", "mod"])})
        else:
            how = r.choice("ZI")
            out.append({"op": "eqz", "a": a, "how": how, "n": num(main) if how == "Z" else str(r.randint(-30, 30))})
        out.append({"op": "un", "a": r.choice([a, d])})
        if r.random() < 0.4:
            out.append({"op": "eq", "a": reg(), "b": reg()})
    return out


def tables(p, e):
    """All pairs of representatives around the field size."""
    m = p ** e
    out = []
    for x in range(-m - 2, 2 * m + 1):
        s = [{"op": "begin", "fields": [[p, e]], "k": 3}, {"op": "new", "d": 1, "f": 1, "n": str(x), "how": ["ctor", "from", "togf"][x % 3]},
             {"op": "un", "a": 1}, {"op": "inv", "d": 3, "a": 1}, {"op": "neg", "d": 3, "a": 1}]
        for y in range(-m - 1, m + 2):
            s.append({"op": "new", "d": 2, "f": 1, "n": str(y), "how": "ctor"})
            s += [{"op": "bin", "g": g, "d": 3, "a": 1, "b": 2} for g in ("add", "sub", "mul")]
            s += [{"op": "div", "d": 3, "a": 1, "b": 2, "how": "op"}, {"op": "eq", "a": 1, "b": 2}]
            s += [{"op": "eqz", "a": 1, "how": h, "n": str(y)} for h in "ZI"]
        out.append(s)
    return out


def run(ctx):
    ctx.model("MC_GF", {"Fields": ctx.pick("{21,31,22,51,32}", "{21,31,22,51,71,23,32,111,131,24}")},
              invariants=("Laws",))
    fields = ctx.pick([(2, 1), (3, 1), (2, 2), (5, 1), (7, 1)], [(2, 1), (3, 1), (2, 2), (5, 1), (7, 1), (2, 3), (3, 2), (11, 1), (13, 1)])
    ctx.validate("d_gf", "T_GF", [s for p, e in fields for s in tables(p, e)], source="all pairs", skip_rest=True)
    r = ctx.rng("r")
    ctx.validate("d_gf", "T_GF", [session(r, 14) for _ in range(ctx.pick(1500, 20000))], source="random", skip_rest=True)
