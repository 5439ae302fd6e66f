"""Models (Mod.tla)."""
from fractions import Fraction

from gens import terms

DRIVERS = ["d_mod"]
RELS = ["=", "!=", "<", "<=", ">", ">="]
BVRELS = ["eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"]
ALG = [["a", ["-2", "0", "1"], "1", "2"], ["a", ["-2", "0", "1"], "-2", "-1"], ["a", ["-3", "0", "1"], "3/2", "2"], ["a", ["-2", "0", "0", "1"], "1", "3/2"],
       ["a", ["6", "0", "-5", "0", "1"], "1", "3/2"], ["a", ["-3", "2"], "1", "2"], ["a", ["-1", "-1", "1"], "1", "2"]]


class Gen:
    def __init__(self, r):
        self.r = r
        self.int = r.random() < 0.25
        self.nv, self.nb, self.nu = 3, 2, 3
        w = r.choice([1, 2, 3, 4])
        self.vw = [w, w, 1]
        self.alg = not self.int and r.random() < 0.6

    def num(self):
        return str(self.r.randint(-3, 3)) if self.int or self.r.random() < 0.6 else self.r.choice(["1/2", "-1/2", "3/2", "1/3", "-5/2"])

    def poly(self, vs, n=3, deg=2):
        r, seen, out = self.r, set(), []
        for _ in range(r.randint(1, n)):
            e = [0] * self.nv
            for _ in range(r.randint(0, deg)):
                if vs:
                    e[r.choice(vs) - 1] += 1
            if tuple(e) not in seen:
                seen.add(tuple(e))
                out.append([e, r.choice(["1", "-1", "2", "-2", "3"] + ([] if self.int else ["1/2"]))])
        return out

    def rpoly(self):
        """A polynomial of degree 1 to 3 in the root variable (the last), coefficients in x2, x3."""
        r = self.r
        d = r.choice([1, 1, 2, 2, 3])
        out = [[[0] * self.nv + [d], r.choice(["1", "1", "2", "-1"])]] if r.random() < 0.85 else [[[0, 1, 0, d], "1"]]
        for k in range(d):
            if r.random() < 0.7 or k == 0:
                e = [0] * (self.nv + 1)
                e[3] = k
                if r.random() < 0.5:
                    e[r.choice([1, 2])] += 1
                out.append([e, r.choice(["1", "-1", "-2", "-3", "2"])])
        return out

    def number(self):
        return self.r.choice(ALG) if self.alg and self.r.random() < 0.5 else ["q", self.num()]

    def cmp(self):
        r = self.r
        v = ["r", self.rpoly(), r.choice([1, 1, 2, 3])] if r.random() < 0.6 else self.number()
        return {"t": "vc", "v": r.randint(1, 3), "p": v, "r": r.choice(RELS), "neg": r.random() < 0.3}

    def uterm(self, d=2):
        r = self.r
        if d == 0 or r.random() < 0.5:
            return {"f": 0, "u": r.randint(1, self.nu), "a": []}
        f = r.randint(1, 2)
        return {"f": f, "u": 0, "a": [self.uterm(d - 1) for _ in range(f)]}

    def bv(self, w, d=2):
        r = self.r

        def t(o, n="0", i=0, j=0, k=(), ww=w):
            return {"o": o, "n": n, "w": ww, "i": i, "j": j, "k": list(k)}
        vs = [i for i, x in enumerate(self.vw, 1) if x == w]
        if d == 0 or r.random() < 0.3:
            if vs and r.random() < 0.8:
                return t("var", i=r.choice(vs))
            return t("const", str(r.randrange(1 << w)))
        o = r.choice(["and", "or", "xor", "add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "smod", "shl", "lshr", "ashr", "not", "neg", "extract", "exts", "extu", "concat", "eq", "lrot"])
        if o in ("not", "neg"):
            return t(o, k=[self.bv(w, d - 1)])
        if o == "lrot":
            return t(o, i=r.randint(0, w), k=[self.bv(w, d - 1)])
        if o == "extract":
            x = self.vw[0]
            if w <= x:
                lo = r.randint(0, x - w)
                return t(o, i=lo + w - 1, j=lo, k=[self.bv(x, d - 1)])
            return self.bv(w, d - 1)
        if o in ("exts", "extu"):
            if w > 1:
                return t(o, i=w - 1, k=[self.bv(1, d - 1)])
            return self.bv(w, d - 1)
        if o == "concat":
            if w == 1:
                return self.bv(w, d - 1)
            return t(o, k=[self.bv(1, d - 1), self.bv(w - 1, d - 1)])
        if o == "eq":
            if w != 1:
                return self.bv(w, d - 1)
            x = self.vw[0]
            return t(o, k=[self.bv(x, d - 1), self.bv(x, d - 1)])
        return t(o, k=[self.bv(w, d - 1), self.bv(w, d - 1)])

    def atom(self, bs=(1, 2)):
        r = self.r
        x = r.random()
        if x < 0.3 and bs:
            return {"t": "bool", "v": r.choice(bs)}
        if x < 0.65:
            return {"t": "con", "p": self.poly([1, 2, 3]), "r": r.choice(RELS)}
        if x < 0.78:
            w = r.choice(self.vw)
            return {"t": "bv", "r": r.choice(BVRELS), "x": self.bv(w), "y": self.bv(w)}
        if x < 0.88:
            return {"t": "ueq", "x": self.uterm(), "y": self.uterm(), "neg": r.random() < 0.4}
        if self.int:
            return {"t": "con", "p": self.poly([1, 2, 3]), "r": r.choice(RELS)}
        if x < 0.95:
            return self.cmp()
        return {"t": "va", "v": r.randint(1, 3), "p": self.number(), "r": "=", "neg": r.random() < 0.4}

    def tree(self, d=2, bs=(1, 2)):
        r = self.r
        if d == 0 or r.random() < 0.25:
            return self.atom(bs)
        k = r.choice(["and", "or", "xor", "iff", "implies", "ite", "not"])
        n = {"implies": 2, "ite": 3, "not": 1}.get(k) or r.choice([2, 2, 3])
        return {"t": k, "a": [self.tree(d - 1, bs) for _ in range(n)]}

    def value(self, k):
        r = self.r
        x = r.random()
        if k[0] == "x":
            if x < 0.5:
                return ["q", self.num()]
            if k[1] < 3 and x < 0.75:
                return ["p", self.poly([2, 3] if k[1] == 1 else [3])]
            if k[1] == 1 and self.alg:
                return r.choice(ALG) if x < 0.88 else ["r", self.rpoly(), r.choice([1, 1, 2])]
            return ["q", self.num()]
        if k[0] == "b":
            if x < 0.75:
                return ["b", r.random() < 0.5]
            return ["F", self.tree(1, [2] if k[1] == 1 else [])]
        if k[0] == "v":
            w = self.vw[k[1] - 1]
            return ["v", w, str(r.randrange(1 << w))]
        if k[0] == "u":
            return ["s", r.randint(0, 3)]
        return ["f", self.table(k[1])]

    def table(self, n):
        r = self.r
        t = {}
        for _ in range(r.randint(0, 4)):
            t[tuple(r.randint(0, 3) for _ in range(n))] = r.randint(0, 3)
        return [[list(a), v] for a, v in t.items()]

    def key(self):
        r = self.r
        k = r.choice("xxxxbbvvuuf")
        return [k, r.randint(1, {"x": 3, "b": 2, "v": 3, "u": 3, "f": 2}[k])]

    def point(self):
        r = self.r
        return {"x": [self.num() for _ in range(3)], "b": [r.random() < 0.5 for _ in range(2)], "v": [str(r.randrange(1 << w)) for w in self.vw],
                "u": [r.randint(0, 3) for _ in range(3)], "f": [self.table(1), self.table(2)]}


def session(r, n):
    g = Gen(r)
    s = [{"op": "begin", "nv": 3, "types": ("i" if g.int else "r") * 3, "nb": g.nb, "vw": g.vw, "nu": g.nu, "pts": [g.point() for _ in range(3)]}]
    keys = [["x", 1], ["x", 2], ["x", 3], ["b", 1], ["b", 2], ["v", 1], ["v", 2], ["v", 3], ["u", 1], ["u", 2], ["u", 3], ["f", 1], ["f", 2]]
    full = r.choice([0.3, 0.7, 1, 1])
    for k in keys:
        if r.random() < full:
            s.append({"op": "set", "m": 1, "k": k, "v": g.value(k), "way": r.choice(["assign", "emplace", "insert", "hint"])})
    olds = []
    for _ in range(n):
        x = r.random()
        m = r.choice([1, 1, 1, 1, 2, 3])
        k = g.key()
        if x < 0.16:
            way = r.choice(["assign", "assign", "assign", "emplace", "insert", "hint"])
            s.append({"op": "set", "m": m, "k": k, "v": g.value(k), "way": way})
        elif x < 0.17:
            s.append({"op": "set", "m": r.choice([2, 3]), "k": ["x", r.randint(1, 3)], "v": ["q", g.num()], "way": "from"})
        elif x < 0.21:
            s.append({"op": "erase", "m": m, "k": k})
        elif x < 0.24:
            s.append({"op": "update", "m": m, "n": r.choice([2, 3]) if m == 1 else r.randint(1, 3), "dis": r.random() < 0.3})
            if s[-1]["m"] == s[-1]["n"]:
                s.pop()
        elif x < 0.26:
            s.append({"op": "copy", "m": r.choice([2, 3]), "n": 1, "way": r.random() < 0.5})
        elif x < 0.265:
            s.append({"op": "clear", "m": m})
        elif x < 0.28:
            s.append({"op": "clean", "m": m})
        elif x < 0.33:
            s.append({"op": "look", "m": m, "ks": [g.key() for _ in range(r.randint(0, 3))]})
        elif x < 0.45:
            s.append({"op": "evald", "m": m, "k": ["x", r.choice([1, 1, 2])] if r.random() < 0.5 else k})
        elif x < 0.51:
            y = ["x", r.choice([1, 2])]
            x1 = ["x", 1]   # the values of other keys do not depend on x1
            s.append(r.choice([{"op": "scale", "m": m, "k": x1, "c": g.r.choice(["2", "-1", "3"])}, {"op": "shift", "m": m, "k": x1, "c": r.choice(["1", "-2"])},
                               {"op": "repr", "m": m, "k": y if r.random() < 0.7 else ["b", r.randint(1, 2)]}]))
        elif x < 0.52:
            f = r.randint(1, 2)
            s.append({"op": "extend", "m": m, "k": ["f", f], "a": [r.randint(0, 3) for _ in range(f)], "v": r.randint(0, 3)})
        elif x < 0.72:
            t = r.choice(olds) if olds and r.random() < 0.3 else g.tree(r.choice([0, 0, 1, 2]))
            olds.append(t)
            s.append({"op": r.choice(["ev", "sub"]), "m": m, "t": t})
        elif x < 0.82:
            p = r.choice(olds) if olds and r.random() < 0.0 else g.poly([1, 2, 3])
            s.append({"op": r.choice(["evp", "evp", "subp"]), "m": m, "p": p})
        elif x < 0.87:
            t = g.bv(r.choice(g.vw))

            def bvars(t):
                return {t["i"]} if t["o"] == "var" else set().union(*[bvars(y) for y in t["k"]])
            s.append({"op": "evt", "m": m, "t": t, "vs": sorted(bvars(t))} if r.random() < 0.5 else {"op": "subt", "m": m, "t": t})
        elif x < 0.91:
            s.append({"op": "evu", "m": m, "t": g.uterm()})
        elif x < 0.95:
            if not g.int:
                s.append({"op": "evr", "m": m, "p": g.rpoly(), "n": r.choice([1, 1, 2, 3])})
        elif not g.int:
            s.append({"op": "meta", "m": m, "t": g.cmp()})
    return s


def run(ctx):
    r = ctx.rng("r")
    ctx.model("MC_Mod", {"Out": "FALSE", "Depth": 1}, invariants=("Laws",), workers=8)
    pt = lambda *a: {"x": list(a), "b": [False, True], "v": ["0", "0", "0"], "u": [0, 0, 0], "f": [[], []]}
    hd = {"op": "begin", "nv": 3, "types": "rrr", "nb": 2, "vw": [1, 1, 1], "nu": 3, "pts": [pt("0", "1", "2"), pt("3", "4", "-1"), pt("1/2", "-1", "4")]}
    s = ctx.generate("MC_Mod", {"Out": "TRUE", "Depth": 3}, header=hd)
    if ctx.tier != "quick":
        s += ctx.generate("MC_Mod", {"Out": "TRUE", "Depth": 4}, header=hd)
    s += [session(r, 20) for _ in range(ctx.pick(1000, 12000))]
    ctx.validate("d_mod", "T_Mod", s, source="all short histories and random ones")
