"""Random sessions of the polynomial register machine."""
from gens import integer, mono, nzrat, rat, terms

HOWS = ["vec", "cvec", "acc", "accsub", "accmono", "ops", "sum"]
KINDS = ["term", "mono", "var", "coeff"]
XY = ["tt", "tm", "tv", "tc", "mt", "mc", "vt", "vc", "ct", "cm", "cv"]
FULL = {"t": "term", "m": "mono", "v": "var", "c": "coeff"}


def session(r, length, views, big):
    nv = r.choice([1, 2, 2, 3, 3, 4, 6])
    k = r.choice([3, 4])
    ring = r.choice(["Q", "Q", "Z"])
    size = 2 if big else 1
    num = (lambda: integer(r, size)) if ring == "Z" else (lambda: rat(r, size))
    types = "".join(r.choice("rri") for _ in range(nv))
    out = [{"op": "begin", "nv": nv, "k": k, "ring": ring, "types": types}]
    deg = [0] * (k + 1)
    reg = lambda: r.randint(1, k)

    def term():
        # Monomials come from a small pool so that they collide often.
        return [list(r.choice(pool)), num()]
    pool = [[0] * nv] + [mono(r, nv, 3) for _ in range(5)] + [[1 if j == i else 0 for j in range(nv)] for i in range(nv)]

    def lit():
        d = reg()
        n = r.choice([0, 1, 2, 3, 4, 6]) if not big else r.choice([1, 3, 8, 14])
        how = r.choice(HOWS)
        p = [term() for _ in range(n)]
        if r.random() < 0.3:
            p = terms(r, nv, n, 4, size, ring == "Z")
        if how in ("vec", "cvec"):
            p = [t for t in p if t[1] != "0"]
        deg[d] = 4
        return {"op": "lit", "d": d, "p": p, "how": how}

    for i in range(k):
        c = lit()
        c["d"] = i + 1
        out.append(c)
        deg[i + 1] = 4
    for _ in range(length):
        x = r.random()
        if views and x < 0.45:
            y = r.random()
            if y < 0.35:
                out.append({"op": "cmp", "a": reg(), "b": reg()})
            elif y < 0.6:
                out.append({"op": "cmpx", "a": reg(), "k": r.choice(KINDS), "side": r.choice("lr"), "x": term(), "v": r.randint(1, nv)})
            elif y < 0.9:
                out.append({"op": "view", "a": reg()})
            elif y < 0.95:
                d = reg()
                out.append({"op": "coeffv", "d": d, "a": reg(), "v": r.randint(1, nv), "e": r.randint(0, 3)})
                deg[d] = 99
            else:
                d = reg()
                out.append({"op": "lcoeffv", "d": d, "a": reg(), "v": r.randint(1, nv)})
                deg[d] = 99
            if deg[out[-1].get("d", 0)] == 99:
                deg[out[-1]["d"]] = deg[out[-1]["a"]]
            continue
        f = r.choice(["add", "sub", "add", "sub", "mul"])
        x = r.random()
        if x < 0.16:
            c = lit()
        elif x < 0.32:
            c = {"op": "bin", "f": f, "d": reg(), "a": reg(), "b": reg()}
        elif x < 0.46:
            c = {"op": "inp", "f": f, "a": reg(), "b": reg()}
        elif x < 0.6:
            c = {"op": "inpx", "f": f, "a": reg(), "k": r.choice(KINDS), "x": term(), "v": r.randint(1, nv)}
        elif x < 0.68:
            c = {"op": "binx", "f": f, "a": reg(), "d": reg(), "k": r.choice(KINDS), "side": r.choice("lr"), "x": term(), "v": r.randint(1, nv)}
        elif x < 0.72:
            kk = r.choice(XY)
            c = {"op": "xy", "f": r.choice(["add", "sub"]), "d": reg(), "k": kk, "k1": FULL[kk[0]], "k2": FULL[kk[1]], "x": term(), "y": term(), "v": r.randint(1, nv)}
        elif x < 0.76:
            c = {"op": r.choice(["neg", "copy", "move"]), "d": reg(), "a": reg()}
        elif x < 0.79:
            c = {"op": r.choice(["pow", "pownaive"]), "d": reg(), "a": reg(), "n": r.choice([0, 1, 2, 3])}
        elif x < 0.82:
            if ring != "Q":
                continue
            c = {"op": "divc", "a": reg(), "c": nzrat(r, size)} if r.random() < 0.5 else {"op": "divcx", "d": reg(), "a": reg(), "c": nzrat(r, size)}
        elif x < 0.87:
            c = {"op": "subprod", "a": reg(), "x": term(), "b": reg()}
        elif x < 0.91:
            c = {"op": "addterm", "a": reg(), "x": term()}
        elif x < 0.96:
            c = {"op": r.choice(["order", "unorder"]), "a": reg()}
        elif x < 0.98:
            c = {"op": "nary", "f": r.choice(["add", "sub", "mul"]), "d": reg(), "as": [reg() for _ in range(r.choice([1, 2, 3]))]}
        else:
            out.append({"op": "dump"})
            continue
        # Keep the degrees, hence the sizes, bounded.
        t = c["a"] if c["op"] in ("inp", "inpx", "divc", "subprod", "addterm", "order", "unorder") else c["d"]
        if c["op"] == "lit":
            nd = 4
        elif c["op"] in ("bin", "inp") and f == "mul":
            nd = deg[c["a"]] + deg[c["b"]]
        elif c["op"] in ("bin", "inp"):
            nd = max(deg[c["a"]], deg[c["b"]])
        elif c["op"] in ("inpx", "binx"):
            nd = deg[c["a"]] + 3 if f == "mul" else max(deg[c["a"]], 3)
        elif c["op"] in ("pow", "pownaive"):
            nd = deg[c["a"]] * c["n"]
        elif c["op"] == "subprod":
            nd = max(deg[c["a"]], deg[c["b"]] + 3)
        elif c["op"] == "nary":
            nd = sum(deg[i] for i in c["as"])
        elif c["op"] in ("xy", "addterm"):
            nd = max(3, deg[c.get("a", 0)])
        else:
            nd = deg[c["a"]]
        if nd > (9 if not big else 14):
            c = lit()
            t, nd = c["d"], 4
        out.append(c)
        deg[t] = nd
        if c["op"] == "move" and c["a"] != c["d"]:
            deg[c["a"]] = 0
    out.append({"op": "dump"})
    return out
