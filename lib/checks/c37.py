"""Symmetries of formulas: every one reported keeps the truth value, breaking them keeps a model of each orbit."""
DRIVERS = ["d_sym"]
RELS = ["=", "!=", "<", "<=", ">", ">="]


def node(t, **k):
    return {"t": t, "v": 0, "p": [], "r": "", "a": [], **k}


def header(nv=0, types="", nb=0, vw=(), nu=0):
    kinds = list(types) + ["b"] * nb + [f"v{w}" for w in vw] + ["u"] * nu
    return {"op": "begin", "nv": nv, "types": types, "nb": nb, "vw": list(vw), "nu": nu, "kinds": kinds}


def poly(r, nv):
    """Terms of a polynomial, often unchanged by exchanging variables."""
    m = {}

    def add(e, c):
        m[tuple(e)] = m.get(tuple(e), 0) + c
    for _ in range(r.choice([1, 1, 2])):
        e = [0] * nv
        for _ in range(r.choice([1, 1, 2, 3])):
            e[r.randrange(nv)] += 1
        c = r.choice([1, 1, -1, 2])
        add(e, c)
        if nv > 1 and r.random() < 0.5:
            i, j = r.sample(range(nv), 2)
            e = e[:]
            e[i], e[j] = e[j], e[i]
            add(e, r.choice([c, c, c, -c]))
    if r.random() < 0.4:
        add([0] * nv, r.choice([1, -1]))
    return [[list(e), str(c)] for e, c in m.items() if c]


def tree(r, h, d, special):
    nv, nb = h["nv"], h["nb"]
    if d == 0 or r.random() < 0.1:
        ks = (["con"] * 3 if nv else []) + (["bool"] * 3 if nb else [])
        if special:
            ks += (["vc"] if nv else []) + (["bv"] * 2 if h["vw"] else []) + (["ueq"] * 2 if h["nu"] else [])
        k = r.choice(ks or ["true"])
        if k == "con":
            return node("con", p=poly(r, nv), r=r.choice(RELS))
        if k == "bool":
            return node("bool", v=r.randint(1, nb))
        if k == "vc":
            return node("vc", v=r.randint(1, nv), p=["q", r.choice(["0", "1"])], r=r.choice(RELS), neg=r.random() < 0.3)
        if k == "bv":
            i = r.randint(1, len(h["vw"]))
            w = h["vw"][i - 1]
            var = lambda j: {"o": "var", "n": "0", "w": w, "i": j, "j": 0, "k": []}
            js = [j + 1 for j, x in enumerate(h["vw"]) if x == w and j + 1 != i]
            y = var(r.choice(js)) if js and r.random() < 0.7 else {"o": "const", "n": str(r.randrange(2 ** w)), "w": w, "i": 0, "j": 0, "k": []}
            return node("bv", r=r.choice(["eq", "ne", "ult", "ule", "ugt", "uge"]), x=var(i), y=y)
        if k == "ueq":
            i, j = (r.randint(1, h["nu"]) for _ in range(2))
            return node("ueq", x={"f": 0, "u": i, "a": []}, y={"f": 0, "u": j, "a": []}, neg=r.random() < 0.4)
        return node(k)
    if special and nb and r.random() < 0.15:
        q = r.sample(range(1, nb + 1), r.randint(1, min(2, nb)))
        return node(r.choice(["exists", "forall"]), q=q, a=[tree(r, h, d - 1, special)])
    if r.random() < 0.12:
        return node("not", a=[tree(r, h, d - 1, special)])
    t = r.choice(["and", "or", "and", "or", "xor", "iff", "implies", "ite"])
    return node(t, a=[tree(r, h, d - 1, special) for _ in range({"implies": 2, "ite": 3}.get(t) or r.randint(2, 3))])


def renamed(t, h, g):
    """t with variable i (numbered from 0) replaced by g[i]."""
    nv, nb = h["nv"], h["nb"]
    ov, ou = nv + nb, nv + nb + len(h["vw"])
    t = dict(t)
    if t["t"] == "con":
        t["p"] = [[[e[g.index(i)] for i in range(nv)], c] for e, c in t["p"]]
    elif t["t"] == "bool":
        t["v"] = g[nv + t["v"] - 1] - nv + 1
    elif t["t"] == "vc":
        t["v"] = g[t["v"] - 1] + 1
    elif t["t"] == "bv":
        for k in "xy":
            if t[k]["o"] == "var":
                t[k] = {**t[k], "i": g[ov + t[k]["i"] - 1] - ov + 1}
    elif t["t"] == "ueq":
        for k in "xy":
            t[k] = {**t[k], "u": g[ou + t[k]["u"] - 1] - ou + 1}
    elif t["t"] in ("exists", "forall"):
        t["q"] = [g[nv + v - 1] - nv + 1 for v in t["q"]]
    t["a"] = [renamed(x, h, g) for x in t["a"]]
    return t


def perm(r, h):
    g = list(range(len(h["kinds"])))
    for k in sorted(set(h["kinds"])):
        pos = [i for i, x in enumerate(h["kinds"]) if x == k]
        if r.random() < 0.7:
            img = pos[:]
            if r.random() < 0.5 and len(pos) > 1:
                i, j = r.sample(range(len(pos)), 2)
                img[i], img[j] = img[j], img[i]
            else:
                r.shuffle(img)
            for i, j in zip(pos, img):
                g[i] = j
    return g


def orbit(t, h, g):
    out, x = [t], renamed(t, h, g)
    while x != t and len(out) < 6:
        out.append(x)
        x = renamed(x, h, g)
    return out


def symmetric(r, h, d, special):
    t = tree(r, h, d, special)
    parts = orbit(t, h, perm(r, h))
    if r.random() < 0.2 and len(parts) > 1:
        parts.pop()
    if r.random() < 0.4:
        parts.append(tree(r, h, 0, special))
    op = r.choice(["and", "or", "xor", "and", "or", "iff"])
    f = node(op, a=parts) if len(parts) > 1 else parts[0]
    if r.random() < 0.3:
        f = node(r.choice(["and", "or", "implies"]), a=[f, symmetric(r, h, 0, special)])
    return f


SHAPES = [dict(nv=2, types="rr", nb=2), dict(nv=3, types="rrr"), dict(nv=3, types="rri", nb=1), dict(nb=4), dict(nb=5), dict(nv=2, types="ii", nb=3),
          dict(nv=4, types="rrrr"), dict(nv=4, types="iirr"), dict(nv=2, types="ir", nb=2), dict(nv=3, types="iii", nb=2)]
SPECIAL = [dict(nb=2, vw=[2, 2]), dict(nb=2, vw=[1, 1, 2]), dict(nb=2, nu=3), dict(nv=2, types="rr", nb=2), dict(nv=2, types="ii", nb=3), dict(nb=4), dict(nv=2, types="rr", vw=[1, 1], nu=2)]


def session(r, n, special):
    h = header(**r.choice(SPECIAL if special else SHAPES))
    out = [h]
    for _ in range(n):
        first = r.random() < 0.4
        if r.random() < 0.15 and not h["vw"] and not h["nu"]:
            gs = []
            for _ in range(r.randint(1, 3)):
                g = perm(r, h)
                gs.append([[i + 1, g[i] + 1] for i in range(len(g))])
            out.append({"op": "lex", "syms": gs, "first": first})
        else:
            f = (symmetric if r.random() < 0.8 else tree)(r, h, r.choice([0, 1, 1, 2]), special)
            out.append({"op": "sym", "x": f, "first": first, "way": r.random() < 0.5})
    return out


def run(ctx):
    r = ctx.rng("r")
    ctx.model("MC_Sym", {"Out": "FALSE", "NA": 1}, invariants=("Laws",), workers=8)
    hd = header(nv=2, types="rr", nb=2)
    s = ctx.generate("MC_Sym", {"Out": "TRUE", "NA": ctx.pick(8, 13)}, header=hd)
    s += [session(r, 8, False) for _ in range(ctx.pick(150, 3000))]
    s += [session(r, 8, True) for _ in range(ctx.pick(100, 2000))]
    ctx.validate("d_sym", "T_Sym", s, source="all small formulas and random symmetric ones")
