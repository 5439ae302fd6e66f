"""Intervals: exhaustive pairs over few bounds, and random sessions."""
from gens import nzrat, rat

PAIR = {"arith": [{"op": "bin", "f": "add"}, {"op": "bin", "f": "sub"}, {"op": "bin", "f": "mul"}, {"op": "div"}, {"op": "divext"}],
        "set": [{"op": "hull"}, {"op": "cap"}, {"op": "union"}, {"op": "minus"}, {"op": "symm"}, {"op": "pair"}]}


def intervals(bs):
    """All intervals with bounds of the increasing list bs."""
    out = [["0", "S", "0", "S"], ["0", "I", "0", "I"]]
    for i, l in enumerate(bs):
        out.append([l, "W", l, "W"])
        for t in "SW":
            out += [[l, "I", l, t], [l, t, l, "I"]]
        for u in bs[i + 1:]:
            out += [[l, a, u, b] for a in "SW" for b in "SW"]
    return out


def unary(kind, nums, pows):
    out = []
    if kind == "arith":
        out += [{"op": "neg", "how": h, "d": 3, "a": 1} for h in ("inv", "op")]
        out += [{"op": "pow", "how": h, "d": 3, "a": 1, "n": n} for n in pows for h in ("in", "op")]
        out += [{"op": o, "d": 3, "a": 1, "how": h} for o in ("abs", "floor", "ceil") for h in ("m", "f")]
        out += [{"op": "recip", "a": 1}]
        for c in nums:
            for f in ("add", "sub", "rsub", "mul") + (("div",) if c != "0" else ()):
                out.append({"op": "num", "f": f, "c": c, "d": 3, "a": 1, "flip": len(out) % 2 == 0})
                if f != "rsub":
                    out += [{"op": "copy", "d": 3, "a": 1}, {"op": "numin", "f": f, "c": c, "a": 3}]
    else:
        out += [{"op": "view", "a": 1}, {"op": "compl", "a": 1}]
        out += [{"op": "int", "d": 3, "a": 1, "how": h} for h in ("in", "op")]
        out += [{"op": "split", "a": 1, "n": n} for n in (0, 2, 3, 5)]
        out += [{"op": "sample", "a": 1, "incl": b} for b in (True, False)]
        for c in nums:
            out.append({"op": "cmpn", "a": 1, "c": c})
            for t in "SW":
                out += [{"op": "copy", "d": 3, "a": 1}, {"op": "setl", "a": 3, "c": c, "t": t},
                        {"op": "copy", "d": 3, "a": 1}, {"op": "setu", "a": 3, "c": c, "t": t}]
            if not c.startswith("-"):
                out += [{"op": "copy", "d": 3, "a": 1}, {"op": "bloat", "a": 3, "c": c}]
        for o in ("setl", "setu"):
            out += [{"op": "copy", "d": 3, "a": 1}, {"op": o, "a": 3, "c": "0", "t": "I"}]
    return out


def exhaustive(kind, bs, nums, pows):
    """One short session per pair of intervals and per interval."""
    every = intervals(bs)
    hows = ["four", "boost", "bounds"]
    lit = lambda d, x, n: {"op": "lit", "d": d, "x": x, "how": hows[n % 3]}
    out = []
    for i, x in enumerate(every):
        out.append([{"op": "begin", "k": 3}, lit(1, x, i)] + unary(kind, nums, pows))
        for j, y in enumerate(every):
            out.append([{"op": "begin", "k": 3}, lit(1, x, i + j), lit(2, y, j)] + [dict(c, d=3, a=1, b=2) for c in PAIR[kind]])
    return out


def session(r, length, kind):
    k = 4
    out = [{"op": "begin", "k": k}]
    reg = lambda: r.randint(1, k)
    size = r.choice([0, 1, 1, 2])
    num = lambda: rat(r, size)
    types = lambda: r.choice("SSWWI")

    def lit(d):
        h = r.choice(["four", "four", "boost", "bounds", "pt", "two", "full", "empty", "zero", "int"])
        x = [num(), types(), num(), types()]
        from fractions import Fraction as F
        if h == "boost" or r.random() < 0.8:
            if F(x[0]) > F(x[2]):
                x[0], x[2] = x[2], x[0]
        if h == "boost" and x[1] != "I" and x[3] == "I":
            x[2] = x[0]
        if h == "pt":
            x = [x[0], "W", x[0], "W"]
        elif h == "two":
            x[1] = x[3] = "W"
        elif h == "full":
            x = ["0", "I", "0", "I"]
        elif h == "empty":
            x = ["0", "S", "0", "S"]
        elif h == "zero":
            x = ["0", "W", "0", "W"]
        elif h == "int":
            x[0], x[2] = str(r.randint(-5, 3)), str(r.randint(-3, 5))
        out.append({"op": "lit", "d": d, "x": x, "how": h})
    deg = 0
    for d in range(1, k + 1):
        lit(d)
    for _ in range(length):
        a, b, d = reg(), reg(), reg()
        if r.random() < 0.3:
            lit(d)
            continue
        if kind == "arith" or r.random() < 0.25:
            if len(out) % 7 == 0:
                lit(d)
            x = r.random()
            if x < 0.2:
                out.append({"op": "bin", "f": r.choice(["add", "sub", "mul"]), "d": d, "a": a, "b": b})
            elif x < 0.35:
                out.append({"op": "inp", "f": r.choice(["add", "sub", "mul"]), "a": a, "b": b})
            elif x < 0.6:
                f = r.choice(["add", "sub", "rsub", "mul", "div"])
                c = nzrat(r, size) if f == "div" else num()
                if r.random() < 0.5 and f != "rsub":
                    out.append({"op": "numin", "f": f, "c": c, "a": a})
                else:
                    out.append({"op": "num", "f": f, "c": c, "d": d, "a": a, "flip": r.random() < 0.5})
            elif x < 0.65:
                out.append({"op": "neg", "d": d, "a": a, "how": r.choice(["inv", "op"])})
            elif x < 0.72 and deg < 3:
                deg += 1
                out.append({"op": "pow", "d": d, "a": a, "n": r.choice([0, 1, 2, 2, 3, 4, 5]), "how": r.choice(["in", "op"])})
            elif x < 0.86:
                out.append({"op": r.choice(["abs", "floor", "ceil", "div", "div"]), "d": d, "a": a, "b": b, "how": r.choice(["m", "f"])})
            else:
                out.append({"op": r.choice(["recip", "divext"]), "a": a, "b": b})
            out.append({"op": "pair", "a": reg(), "b": reg()})
        else:
            x = r.random()
            if x < 0.15:
                out.append({"op": "view", "a": a})
            elif x < 0.3:
                out.append({"op": "pair", "a": a, "b": b})
            elif x < 0.4:
                out.append({"op": "cmpn", "a": a, "c": num()})
            elif x < 0.55:
                out.append({"op": r.choice(["hull", "cap", "int"]), "d": d, "a": a, "b": b, "how": r.choice(["in", "op"])})
            elif x < 0.75:
                out.append({"op": r.choice(["union", "minus", "symm", "compl"]), "a": a, "b": b})
            elif x < 0.82:
                out.append({"op": "split", "a": a, "n": r.choice([0, 0, 2, 3, 4, 7])})
            elif x < 0.92:
                out.append({"op": "sample", "a": a, "incl": r.random() < 0.5})
            elif x < 0.95:
                out.append({"op": "bloat", "a": a, "c": num().lstrip("-")})
            else:
                out.append({"op": r.choice(["setl", "setu"]), "a": a, "c": num(), "t": types()})
    return out


def check(ctx, kind):
    ctx.model("MC_Ivl", {"Bs": '{"-1", "0", "1"}' if ctx.quick else '{"-2", "-1", "0", "1", "2"}'}, invariants=["Laws"], workers=8)
    bs = ctx.pick(["-2", "-1", "0", "1", "2"], ["-3", "-2", "-1", "-1/2", "0", "1/2", "1", "3/2", "2"])
    nums = ["-2", "-1", "0", "1", "3/2"]
    ctx.validate("d_ivl", "T_Ivl", exhaustive(kind, bs, nums, range(0, 6)), skip_rest=True, source="enumerated")
    r = ctx.rng(kind)
    ctx.validate("d_ivl", "T_Ivl", [session(r, 30, kind) for i in range(ctx.pick(600, 8000))], skip_rest=True)
