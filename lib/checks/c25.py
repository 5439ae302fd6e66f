DRIVERS = ["d_cont"]
POS = [0, 1, 2, 30, 31, 32, 33, 62, 63, 64, 65, 66, 95, 96, 127, 128, 129, 191, 192, 200, 255, 256]


def pos(r):
    return r.choice(POS) if r.random() < 0.7 else r.randint(0, 260)


def bits(r, length):
    k = 3
    out = [{"op": "begin", "kind": "bits", "k": k}]
    reg = lambda: r.randint(1, k)
    for d in range(1, k + 1):
        if r.random() < 0.6:
            out.append({"op": "init", "d": d, "l": [pos(r) for _ in range(r.randint(0, 3))], "v": r.random() < 0.4})
    for _ in range(length):
        x, a, b, d = r.random(), reg(), reg(), reg()
        v = r.random() < 0.6
        if x < 0.15:
            out.append({"op": "set", "a": a, "n": pos(r), "v": v})
        elif x < 0.2:
            out.append({"op": "reset", "a": a, "n": pos(r)})
        elif x < 0.27:
            n = pos(r)
            out.append({"op": "seti", "a": a, "n": n, "m": min(n + r.choice([0, 1, 3, 70]), 300), "v": v})
        elif x < 0.33:
            out.append({"op": "rsz", "a": a, "n": pos(r), "v": v, "dv": r.random() < 0.6})
        elif x < 0.45:
            out.append({"op": "bin", "o": r.choice(["and", "or", "sub"]), "d": d, "a": a, "b": b})
        elif x < 0.55:
            out.append({"op": "inp", "o": r.choice(["and", "or", "sub"]), "a": a, "b": b})
        elif x < 0.6:
            out.append({"op": "not", "d": d, "a": a})
        elif x < 0.63:
            out.append({"op": "copy", "d": d, "a": a})
        elif x < 0.66:
            out.append({"op": "new", "d": d, "v": r.random() < 0.5})
        elif x < 0.7:
            out.append({"op": "test", "a": a, "n": pos(r)})
        elif x < 0.8:
            out.append({"op": "cmp", "a": a, "b": b})
        elif x < 0.86:
            out.append({"op": "ord", "a": 1})
        elif x < 0.9:
            out.append({"op": "list", "a": a})
        elif x < 0.95:
            out.append({"op": "next", "a": a, "n": pos(r)})
        else:
            out.append({"op": r.choice(["count", "first"]), "a": a})
    return out


def vec(r, length):
    k = 3
    out = [{"op": "begin", "kind": "vec", "k": k}]
    reg = lambda: r.randint(1, k)
    for _ in range(length):
        x, a, b, d = r.random(), reg(), reg(), reg()
        if x < 0.1:
            out.append({"op": "new", "d": d, "n": pos(r)})
        elif x < 0.4:
            out.append({"op": "set", "a": a, "n": pos(r), "v": r.random() < 0.5})
        elif x < 0.44:
            out.append({"op": "clear", "a": a})
        elif x < 0.5:
            out.append({"op": "grow", "a": a, "n": r.choice([0, 1, 2, 4, 9])})
        elif x < 0.55:
            out.append({"op": "copy", "d": d, "a": a})
        elif x < 0.68:
            out.append({"op": "bin", "d": d, "a": a, "b": b})
        elif x < 0.8:
            out.append({"op": "inp", "o": r.choice(["or", "union"]), "a": a, "b": b})
        else:
            out.append({"op": "cmp", "a": a, "b": b})
    return out


def ids(r, kind, length):
    out = [{"op": "begin", "kind": kind, "base": 1 if kind == "gen" else 0}]
    n, up, live = 0, r.choice([0.5, 0.65, 0.9]), []
    for _ in range(length):
        x = r.random()
        if x < 0.01:
            out.append({"op": "clear"})
            live = []
        elif x < up or not live:
            out.append({"op": "get"})
            n += 1
            live.append(n)
        else:
            m = r.random()
            h = live.pop(r.randrange(len(live)) if m < 0.7 else -1 if m < 0.85 else 0)
            out.append({"op": "free", "h": h})
    return out


def heap(r, length):
    out = [{"op": "begin", "kind": "heap", "fast": r.random() < 0.5}]
    hi, up = r.choice([2, 5, 1000]), r.choice([0.45, 0.6, 0.8])
    for _ in range(length):
        x = r.random()
        if x < up:
            out.append({"op": "push", "p": r.randint(0, hi)})
        elif x < up + 0.03:
            out.append({"op": "pushes", "l": [r.randint(0, hi) for _ in range(r.randint(0, 5))]})
        elif x < up + 0.05:
            out.append({"op": r.choice(["copy", "look"])})
        else:
            o = r.choice(["pop", "poppos", "poppos", "dectop"])
            out.append({"op": o, "i": r.randint(0, 100), "p": r.randint(0, hi)})
    return out


def cache(r, length):
    mx = r.choice([1, 2, 3, 4, 8])
    out = [{"op": "begin", "kind": "cache", "max": mx, "red": r.choice(["half", "fifth"])}]
    n, aux, hi = 0, 0, r.choice([mx + 1, 2 * mx + 2])
    for _ in range(length):
        x = r.random()
        if x < 0.35 or n == 0:
            aux += 1
            out.append({"op": "cache", "v": r.randint(1, hi), "aux": aux, "upd": r.random() < 0.35})
            n += 1
            if r.random() < 0.7:
                out.append({"op": "reg", "h": n})
        else:
            h = r.randint(max(1, n - 8), n)
            o = r.choice(["reg", "dereg", "dereg", "dereg", "get", "get", "str", "decay", "rehash"])
            out.append({"op": o, "h": h, "v": r.randint(1, hi)})
    return out


def tree(r, length):
    out = [{"op": "begin", "kind": "tree"}]
    n = 0
    for _ in range(length):
        x = r.random()
        h = r.randint(max(1, n - 12), n) if n else 1
        v = r.randint(0, 9)
        if n == 0 or x < 0.03:
            if n == 0 and r.random() < 0.2:
                out.append({"op": r.choice(["walk", "clear", "copy"]), "d": 1, "x": True})
                continue
            o = r.choice(["root", "app0"])
            n += 1 if o == "root" else 2
            out.append({"op": o, "v": v})
        elif x < 0.4:
            out.append({"op": "app", "h": h, "v": v})
            n += 1
        elif x < 0.52:
            out.append({"op": "ins", "h": h, "v": v})
            n += 1
        elif x < 0.55:
            out.append({"op": "repl", "h": h, "v": v})
        elif x < 0.68:
            out.append({"op": "erase", "h": h, "it": r.choice(["pre", "post", "kids", "leaf", "depth"])})
        elif x < 0.72:
            out.append({"op": "erch", "h": h})
        elif x < 0.74:
            out.append({"op": r.choice(["clear", "copy", "copy", "copy"]), "x": r.random() < 0.5})
        elif x < 0.86:
            out.append({"op": "walk", "d": r.randint(0, 4)})
        else:
            out.append({"op": "node", "h": h})
    return out


def run(ctx):
    for kind, depth in (("tree", ctx.pick(4, 5)), ("pool", ctx.pick(9, 12)), ("gen", ctx.pick(9, 12)), ("heap", ctx.pick(7, 9))):
        ctx.model("MC_Cont", {"Kind": f'"{kind}"', "Depth": depth, "Width": 0}, invariants=("Inv",))
    gen = []
    for kind in ("tree", "bits"):
        gen += ctx.generate("MC_Cont", {"Kind": f'"{kind}"', "Depth": 12, "Width": 90}, nxt="GNext", simulate=ctx.pick(150, 2000), depth=14,
                            header={"op": "begin", "kind": kind, "k": 2})
    ctx.validate("d_cont", "T_Cont", gen, source="tlc", skip_rest=True)
    r = ctx.rng("r")
    n = ctx.pick(1, 12)
    s = [bits(r, 25) for _ in range(500 * n)] + [vec(r, 20) for _ in range(200 * n)]
    s += [ids(r, k, 60) for _ in range(40 * n) for k in ("pool", "gen")] + [ids(r, k, 400) for _ in range(4 * n) for k in ("pool", "gen")]
    s += [heap(r, 40) for _ in range(120 * n)] + [cache(r, 50) for _ in range(250 * n)] + [tree(r, 30) for _ in range(400 * n)]
    ctx.validate("d_cont", "T_Cont", s, source="random", skip_rest=True)
