from gens import integer, nzrat, rat, terms

DRIVERS = ["d_up"]


def session(r, length):
    ring = r.choice(["Q", "Q", "Z", "P"])
    nv = 3 if ring == "P" else 1
    x = r.randint(1, nv)
    k = 4
    size = r.choice([0, 1, 1, 2])
    out = [{"op": "begin", "nv": nv, "k": k, "ring": ring, "x": x, "types": "r" * nv}]
    deg = [0] * (k + 1)
    reg = lambda: r.randint(1, k)

    def co():
        if ring == "Z":
            return integer(r, size)
        if ring == "Q":
            return rat(r, size)
        p = {}
        for m, c in terms(r, nv, r.choice([0, 1, 1, 2]), 2, min(size, 1)):
            m[x - 1] = 0
            p[tuple(m)] = c
        return [[list(m), c] for m, c in p.items()]

    def nzco():
        while True:
            c = co()
            if c != "0" and c != []:
                return c

    def emit(c, d=None, n=0):
        out.append(c)
        if d:
            deg[d] = n

    def lit(d=None, n=None):
        d = d or reg()
        n = n if n is not None else r.choice([0, 1, 2, 2, 3, 4, 5])
        p = [co() for _ in range(n)]
        if p and r.random() < 0.3:
            p = [c if r.random() < 0.5 else ([] if ring == "P" else "0") for c in p]
        emit({"op": "lit", "d": d, "p": p, "how": r.choice(["vec", "move", "init", "map", "mono", "horner"]), "zeros": r.random() < 0.5}, d, max(0, n - 1))

    big = 3 if ring == "P" else 9
    for i in range(1, k + 1):
        lit(i)
    for _ in range(length):
        y = r.random()
        a, b, d = reg(), reg(), reg()
        if y < 0.18:
            lit()
        elif y < 0.30:
            f = r.choice(["mul", "mul", "add", "sub"])
            n = deg[a] + deg[b] if f == "mul" else max(deg[a], deg[b])
            if n <= big:
                if r.random() < 0.5:
                    emit({"op": "bin", "f": f, "d": d, "a": a, "b": b}, d, n)
                else:
                    emit({"op": "inp", "f": f, "a": a, "b": b}, a, n)
        elif y < 0.37:
            f = r.choice(["mul", "add", "sub"])
            if ring == "P" or r.random() < 0.4:
                emit({"op": "inpc", "f": f, "a": a, "c": co()}, a, deg[a])
            else:
                emit({"op": "binc", "f": f, "side": r.choice("lr"), "d": d, "a": a, "c": co()}, d, deg[a])
        elif y < 0.40:
            emit({"op": "mulv", "d": d, "a": a, "v": r.randint(1, nv), "how": r.choice(["in", "l", "r"])}, d, deg[a] + 1)
        elif y < 0.44:
            op = r.choice(["neg", "copy", "move"])
            emit({"op": op, "d": d, "a": a}, d, deg[a])
            if op == "move" and a != d:
                deg[a] = 0
        elif y < 0.47:
            n = r.choice([0, 1, 2, 3, 4])
            if deg[a] * n <= big:
                emit({"op": "pow", "d": d, "a": a, "n": n, "member": r.random() < 0.5}, d, deg[a] * n)
        elif y < 0.50:
            if r.random() < 0.6:
                emit({"op": "deriv", "d": d, "a": a, "n": r.choice([0, 1, 1, 2, 3, 4, 5])}, d, deg[a])
            else:
                emit({"op": "derivv", "d": d, "a": a, "v": r.randint(1, nv), "n": r.choice([0, 1, 1, 2, 3, 4])}, d, deg[a])
        elif y < 0.55:
            op = r.choice(["negvar", "rev", "normal"])
            emit({"op": op, "d": d, "a": a}, d, deg[a])
        elif y < 0.57:
            emit({"op": "trunc", "a": a})
        elif y < 0.63:
            emit({"op": "eval", "a": a, "c": co()})
        elif y < 0.68:
            emit({"op": "cmp", "a": a, "b": b})
        elif y < 0.74:
            emit({"op": "view", "a": a})
        elif y < 0.77:
            emit({"op": "coprime", "a": a})
        elif ring == "P":
            z = r.random()
            if z < 0.5:
                if deg[a] <= 4 and deg[b] <= 4:
                    emit({"op": "prem", "d": d, "a": a, "b": b}, d, 4)
                    lit(d)
            elif z < 0.7:
                c = nzco()
                if deg[a] <= 3:
                    emit({"op": "inpc", "f": "mul", "a": a, "c": c}, a, deg[a])
                    emit({"op": "divc", "d": d, "a": a, "c": c if r.random() < 0.8 else nzco()}, d, deg[a])
            elif z < 0.85:
                emit({"op": "muln", "d": d, "a": a, "n": rat(r, 1)}, d, deg[a])
            else:
                if r.random() < 0.5:
                    emit({"op": "lit", "d": a, "how": "vec", "zeros": False, "p": [[[[0] * nv, nzrat(r)]] for _ in range(r.choice([1, 2, 3]))]}, a, 2)
                emit({"op": "tonum", "a": a})
        elif ring == "Z":
            z = r.random()
            if z < 0.2:
                emit({"op": "mod", "a": a, "c": str(r.choice([1, 2, 3, 5, 7, 97, 2 ** 40]))})
            elif z < 0.35:
                emit({"op": "divc", "d": d, "a": a, "c": r.choice(["1", "-1", "2", "3", "-2", "7"])}, d, deg[a])
            elif z < 0.5:
                emit({"op": "prim", "a": a})
            elif z < 0.6:
                emit({"op": "cmpc", "a": a, "c": co()})
            elif z < 0.8:
                if deg[a] + deg[b] <= big and r.random() < 0.6:
                    emit({"op": "inp", "f": "mul", "a": a, "b": b}, a, deg[a] + deg[b])
                emit({"op": "divrem", "a": a, "b": b})
            elif deg[a] <= 5:
                emit({"op": "remp", "a": a, "b": b})
        else:
            z = r.random()
            if z < 0.1:
                emit({"op": "divc", "d": d, "a": a, "c": nzco(), "in": r.random() < 0.5}, d, deg[a])
            elif z < 0.3:
                emit({"op": "divrem", "a": a, "b": b})
            elif z < 0.6:
                if deg[a] + deg[b] <= 7 and r.random() < 0.7:
                    c = r.choice([i for i in range(1, k + 1)])
                    emit({"op": "bin", "f": "mul", "d": a, "a": a, "b": c}, a, deg[a] + deg[c])
                    if c != a:
                        emit({"op": "bin", "f": "mul", "d": b, "a": b, "b": c}, b, deg[b] + deg[c])
                if r.random() < 0.5:
                    emit({"op": "gcd", "d": d, "a": a, "b": b}, d, max(deg[a], deg[b]))
                else:
                    emit({"op": "egcd", "a": a, "b": b})
            elif z < 0.75:
                c = co()
                if r.random() < 0.7 and deg[a] < big:
                    emit({"op": "lit", "d": b, "p": [("-" + c) if c[0] != "-" and c != "0" else c.lstrip("-"), "1"], "how": "vec", "zeros": False}, b, 1)
                    emit({"op": "bin", "f": "mul", "d": a, "a": a, "b": b}, a, deg[a] + deg[b])
                emit({"op": "synth", "a": a, "c": c})
            elif z < 0.82:
                if r.random() < 0.6:
                    emit({"op": "lit", "d": a, "p": [integer(r, size) for _ in range(3)], "how": "vec", "zeros": False}, a, 2)
                emit({"op": "toint", "a": a})
            elif z < 0.9:
                emit({"op": "convert", "a": a, "c": co()})
            else:
                emit({"op": "cmpc", "a": a, "c": co()})
    out.append({"op": "dump"})
    return out


def run(ctx):
    ctx.model("MC_UP", {"MaxDeg": ctx.pick(2, 3)}, invariants=["Laws"], workers=8)
    r = ctx.rng("up")
    ctx.validate("d_up", "T_UP", [session(r, 30) for i in range(ctx.pick(1200, 16000))], skip_rest=True)
