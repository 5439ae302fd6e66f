DRIVERS = ["d_names"]
TYPES = ["b", "r", "i", "u", "bv"]
FILTERS = [TYPES, ["b"], ["r"], ["i"], ["r", "i"], ["u"], ["bv"], ["r", "i", "u", "bv"], ["b", "r", "u"], ["b", "i", "bv"], ["b", "u"]]


def variables(r, length):
    out = [{"op": "begin", "kind": "vars"}]
    n = 0
    types = r.sample(TYPES, r.randint(1, 5))
    for _ in range(length):
        x = r.random()
        h = r.randint(1, max(n, 1))
        name = r.choice(["x", "y", "z", "_r_3", "a b"])
        if x < 0.35 or n == 0:
            n += 1
            out.append({"op": "fresh", "t": r.choice(types), "name": r.choice(["", "", name]), "pers": r.random() < 0.25})
        elif x < 0.5:
            out.append({"op": "view", "h": h})
        elif x < 0.6:
            out.append({"op": "rename", "h": h, "name": name})
        elif x < 0.65:
            out.append({"op": "prefix", "p": r.choice(["_", "", "aux", "$"])})
        elif x < 0.78:
            out.append({"op": "find", "name": name})
        elif x < 0.82:
            out.append({"op": "nr", "t": r.choice(types)})
        elif x < 0.87:
            out.append({"op": "clear"})
        else:
            out.append({"op": "cmp", "h": h, "g": r.randint(1, n)})
    return out + [{"op": "view", "h": h} for h in range(1, n + 1)] + [{"op": "find", "name": x} for x in "xyz"]


def varsets(r, length):
    out = [{"op": "begin", "kind": "vars"}]
    n = r.randint(2, 9)
    out += [{"op": "fresh", "t": r.choice(TYPES), "name": "", "pers": False} for _ in range(n)]
    hs = lambda k: [r.randint(1, n) for _ in range(k)]
    for _ in range(length):
        k, x = r.randint(1, 3), r.random()
        if x < 0.06:
            out.append({"op": "vnew", "k": k, "f": r.choice(FILTERS)})
        elif x < 0.12:
            out.append({"op": "vinit", "k": k, "f": r.choice(FILTERS), "l": hs(r.randint(0, 5))})
        elif x < 0.4:
            out.append({"op": "vadd", "k": k, "l": hs(r.choice([1, 1, 1, 2, 4]))})
        elif x < 0.5:
            out.append({"op": "verase", "k": k, "l": hs(1)})
        elif x < 0.52:
            out.append({"op": "vclear", "k": k})
        elif x < 0.56:
            out.append({"op": "vcopy", "k": k, "j": r.randint(1, 3)})
        elif x < 0.66:
            out.append({"op": "vhas", "k": k, "l": hs(1)})
        elif x < 0.76:
            out.append({"op": "vfilter", "k": k, "f": r.choice(FILTERS)})
        elif x < 0.84:
            out.append({"op": "veq", "k": k, "j": r.randint(1, 3)})
        else:
            out.append({"op": "vlist", "k": k, "q": r.randint(0, 1)})
    return out + [{"op": "vlist", "k": k, "q": 0} for k in (1, 2, 3)]


def sorts(r, length):
    out = [{"op": "begin", "kind": "sorts"}]
    names = ["A", "B", "C", "D", "E", "X", "Y", "Int", "BitVec"]
    top = r.choice([4, 8, 12])
    s = lambda: min(r.randint(1, top), r.randint(1, top))
    ps = lambda lo=0: [s() for _ in range(r.choice([lo, 1, 1, 2]))]
    ix = lambda: r.choice([[], [3], [4], [3, 4], [0]])
    for i in range(length):
        x = r.random() if i > 5 else r.choice([0.05, 0.05, 0.27, 0.27, 0.35])
        n = r.choice(names)
        if x < 0.12:
            out.append({"op": "declare", "n": n, "k": r.choice([0, 1, 1, 2])})
        elif x < 0.22:
            out.append({"op": "define", "n": n, "ps": r.choice([[], ["X"], ["X", "Y"], ["Y", "X"], ["Z"]]), "s": s()})
        elif x < 0.3:
            out.append({"op": "add", "n": n, "ps": r.choice([[], [], ps(1)]), "t": r.choice(TYPES)})
        elif x < 0.35:
            out.append({"op": "addi", "n": n, "ps": r.choice([[], [], ps(1)]), "t": r.choice(TYPES)})
        elif x < 0.38:
            out.append({"op": "interp", "t": r.choice(TYPES)})
        elif x < 0.43:
            out.append({"op": "indexable", "s": s(), "k": r.choice([1, 1, 2]), "t": r.choice(["bv", "i"])})
        elif x < 0.53:
            out.append({"op": "index", "s": s(), "ix": ix()})
        elif x < 0.73:
            out.append({"op": "get", "n": n, "ps": r.choice([[], ps(1), ps(1)]), "ix": r.choice([[], [], ix()])})
        elif x < 0.85:
            out.append({"op": "replace", "s": r.randint(1, top), "m": [{"n": a, "s": s()} for a in r.sample(["X", "Y", "A", "Int"], r.choice([1, 1, 2]))]})
        elif x < 0.96:
            out.append({"op": "view", "s": r.randint(1, top)})
        else:
            out.append({"op": "export"})
    return out + [{"op": "view", "s": k} for k in range(1, 9)]


def ufs(r, length):
    out = [{"op": "begin", "kind": "ufs"}]
    nf, ni = 0, 0
    top = r.choice([3, 6])
    t = lambda: ["v", r.randint(1, 6)] if r.random() < 0.5 else ["i", r.randint(1, top)]
    one = r.random() < 0.5
    so = lambda: 1 if one else r.randint(1, 3)
    tv = lambda: r.choice([["v", 1], ["v", 4], ["i", r.randint(1, top)]]) if one else t()
    for i in range(length):
        x = r.random() if i > 4 else 0.05
        if x < 0.15:
            out.append({"op": "uf", "n": r.choice("fgh"), "dom": [so() for _ in range(r.randint(0, 2))], "cod": so()})
        elif x < 0.2:
            out.append({"op": "ufview", "f": r.randint(1, top)})
        elif x < 0.3:
            out.append({"op": "argsok", "f": r.randint(1, top), "a": [tv() for _ in range(r.randint(0, 2))]})
        elif x < 0.6:
            out.append({"op": "inst", "f": r.randint(1, top), "a": [tv() for _ in range(r.randint(0, 2))]})
        elif x < 0.75:
            out.append({"op": "term", "x": tv()})
        elif x < 0.87:
            out.append({"op": "cmp", "x": tv(), "y": tv()})
        else:
            a, b = tv(), tv()
            c, d = r.choice([(a, b), (b, a), (tv(), tv()), (a, tv())])
            out.append({"op": "eqn", "x": a, "y": b, "z": c, "w": d, "n": r.random() < 0.5, "m": r.random() < 0.5})
    return out


def run(ctx):
    for kind, d in (("vars", ctx.pick(4, 5)), ("sorts", ctx.pick(3, 4))):
        ctx.model("MC_Names", {"Kind": f'"{kind}"', "Depth": d, "Width": 1}, nxt="XNext", invariants=("Inv",), workers=8)
    gen = []
    for kind, n in (("vars", 14), ("sorts", 16)):
        gen += ctx.generate("MC_Names", {"Kind": f'"{kind}"', "Depth": n, "Width": 90}, nxt="GNext", simulate=ctx.pick(250, 3000), depth=n + 2,
                            header={"op": "begin", "kind": kind}, invariants=("Inv",))
    r = ctx.rng("r")
    s = [variables(r, r.choice([6, 15, 30])) for _ in range(ctx.pick(500, 6000))]
    s += [varsets(r, r.choice([8, 20, 40])) for _ in range(ctx.pick(300, 4000))]
    s += [sorts(r, r.choice([10, 20, 40])) for _ in range(ctx.pick(600, 8000))]
    s += [ufs(r, r.choice([10, 20, 40])) for _ in range(ctx.pick(400, 6000))]
    ctx.validate("d_names", "T_Names", gen + s, source="generated and random histories", skip_rest=True)
