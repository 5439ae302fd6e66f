"""Rational functions (RF.tla)."""
from gens import nzrat, rat, terms

DRIVERS = ["d_rf"]


def poly(r, nv, zero=0.05):
    x = r.random()
    if x < zero:
        return []
    if x < 0.15:
        return [[[0] * nv, nzrat(r, 1)]]
    p = terms(r, nv, r.choice([1, 1, 2, 2, 3]), r.choice([1, 1, 2]), r.choice([0, 1]))
    return p


def session(r, n):
    nv, k = r.choice([1, 2, 2, 3]), 3
    out = [{"op": "begin", "nv": nv, "k": k, "as": r.random() < 0.6}]
    size = [0] * (k + 1)    # rough degree of the contents
    reg = lambda: r.randint(1, k)
    # few polynomials, so that factors meet and cancel
    pool = [poly(r, nv, 0) for _ in range(4)]
    pick = lambda z=0.05: r.choice(pool) if r.random() < 0.7 else poly(r, nv, z)

    def new(d):
        how = r.choice(["def", "int", "num", "var", "poly", "polymv"] + ["quot", "quotmv"] * 5)
        c = str(r.randint(-3, 3)) if how == "int" else rat(r, 1)
        out.append({"op": "new", "d": d, "how": how, "p": pick(), "q": pick(0.1), "c": c, "v": r.randint(1, nv)})
        size[d] = 2

    for d in range(1, k + 1):
        new(d)
    for _ in range(n):
        x, a, b, d = r.random(), reg(), reg(), reg()
        if size[a] > 4:
            new(a)
            continue
        if x < 0.08 and size[b] < 3 and len({a, b, d}) == 3:      # there and back again
            f, g = r.choice([("add", "sub"), ("sub", "add"), ("mul", "div"), ("div", "mul")])
            z = {"op": "bin", "d": d, "k": "rf", "ip": False, "p": [], "c": "0", "v": 1, "left": False, "b": b}
            out += [{**z, "f": f, "a": a}, {**z, "f": g, "a": d}, {"op": "cmp", "a": a, "b": d}]
            size[d] = size[a]
        elif x < 0.12 and a != b:                                 # the same in two forms
            p, c = pick(0), nzrat(r, 1)
            out += [{"op": "new", "d": a, "how": "poly", "p": p, "q": [], "c": "0", "v": 1},
                    {"op": "bin", "a": a, "b": a, "d": a, "k": "num", "f": r.choice(["mul", "div"]), "ip": True, "p": [[[0] * nv, c]], "c": "0", "v": 1, "left": False},
                    {"op": "new", "d": b, "how": "quot", "p": p, "q": [[[0] * nv, c]], "c": "0", "v": 1},
                    {"op": "cmp", "a": a, "b": b}, {"op": "new", "d": a, "how": "poly", "p": p, "q": [], "c": "0", "v": 1},
                    {"op": "new", "d": b, "how": "quot", "p": p, "q": [[[0] * nv, "1"]], "c": "0", "v": 1}, {"op": "cmp", "a": a, "b": b}]
            size[a] = size[b] = 2
        elif x < 0.16 and a != d:
            out += [{"op": "inv", "a": a, "d": d}, {"op": "inv", "a": d, "d": d}, {"op": "cmp", "a": a, "b": d}]
            size[d] = size[a]
        elif x < 0.5:
            kind = r.choice(["rf"] * 6 + ["poly", "poly", "term", "mono", "var", "num", "lnum", "sint", "uint"])
            f = r.choice(["add", "sub", "mul", "div"])
            c = {"op": "bin", "a": a, "b": b, "d": d, "k": kind, "f": f, "ip": r.random() < 0.5, "p": pick(), "c": str(r.randint(-5, 5)), "v": r.randint(1, nv), "left": False}
            if kind == "rf" and size[b] > 3:
                continue
            if kind in ("term", "mono"):
                c["p"] = [(r.choice(pool) or [[[1] + [0] * (nv - 1), "1"]])[0]]
                if kind == "mono":
                    m = c["p"][0][0]
                    c["p"] = [[m if any(m) else [1] + [0] * (nv - 1), "1"]]
            if kind in ("num", "lnum"):
                v = rat(r, 1)
                c["p"] = [] if v == "0" else [[[0] * nv, v]]
            if kind == "var":
                c["p"] = [[[1 if i + 1 == c["v"] else 0 for i in range(nv)], "1"]]
            if kind == "lnum":
                c["f"], c["ip"] = "mul", False
            if kind == "sint":
                c["f"], c["left"] = "mul", r.random() < 0.3
                if c["left"]:
                    c["ip"] = False
            if kind == "uint":
                c["f"], c["c"] = "div", str(r.randint(0, 6))
            if kind in ("sint", "uint"):
                c["p"] = [[[0] * nv, "1"]]
            out.append(c)
            size[a if c["ip"] else d] = size[a] + (size[b] if kind == "rf" else 1 if kind in ("poly", "term", "mono", "var") else 0)
        elif x < 0.55:
            out.append({"op": "neg", "a": a, "d": d})
            size[d] = size[a]
        elif x < 0.6:
            out.append({"op": "inv", "a": a, "d": d})
            size[d] = size[a]
        elif x < 0.63:
            e = r.choice([0, 1, 2, 2, 3]) if size[a] <= 2 else r.choice([0, 1])
            out.append({"op": "pow", "a": a, "d": d, "n": e})
            size[d] = size[a] * e
        elif x < 0.66:
            out.append({"op": "simp", "a": a})
        elif x < 0.7:
            out.append({"op": "copy", "a": a, "d": d, "mv": r.random() < 0.5})
            size[d] = size[a]
        elif x < 0.76:
            m = [[i + 1, rat(r, 1)] for i in range(nv) if r.random() < 0.5]
            out.append({"op": "subst", "a": a, "d": d, "m": m})
            size[d] = size[a]
        elif x < 0.86:
            out.append({"op": "eval", "a": a, "m": [[i + 1, rat(r, 1)] for i in range(nv)]})
        elif x < 0.92:
            out.append({"op": "view", "a": a})
        else:
            out.append({"op": "cmp", "a": a, "b": b})
    return out


def run(ctx):
    ctx.model("MC_RF", {"Out": "FALSE", "N": ctx.pick(5, 7)}, invariants=("Laws",), workers=8)
    gen = []
    for a in (False, True):
        gen += ctx.generate("MC_RF", {"Out": "TRUE", "N": ctx.pick(6, 7)}, header={"op": "begin", "nv": 2, "k": 3, "as": a})
    r = ctx.rng("r")
    gen += [session(r, 25) for _ in range(ctx.pick(1200, 12000))]
    ctx.validate("d_rf", "T_RF", gen, source="tlc and random histories", skip_rest=True)
