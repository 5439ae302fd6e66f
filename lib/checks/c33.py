"""Text formats (Text.tla)."""
from checks.c29 import Gen as Base

DRIVERS = ["d_text"]
RELS = ["=", "!=", "<", "<=", ">", ">="]
NAMES = [["x", "y", "z"], ["x", "x1", "x11"], ["alpha", "al", "a"], ["_t", "t_1", "t"]]
BNAMES = [["p", "q", "s"], ["b1", "b10", "b2"], ["note", "b", "nota"], ["ORx", "x1AND", "iffy"]]
CAS = ["maple", "qepcad"]
TWICE = {"and": "nand", "or": "nor", "xor": "xnor"}


class Gen(Base):
    def __init__(self, r):
        super().__init__(r)
        self.alg = False

    def bv(self, w, d=2):
        t = super().bv(w, d)
        r = self.r
        if t["o"] in TWICE and r.random() < 0.4:
            t["o"] = TWICE[t["o"]]
        elif t["o"] == "lrot" and r.random() < 0.5:
            t["o"] = "rrot"
        elif w % 2 == 0 and d and r.random() < 0.05:
            return {"o": "rep", "n": "0", "w": w, "i": 2, "j": 0, "k": [self.bv(w // 2, d - 1)]}
        return t

    def num(self):
        return super().num() if self.r.random() < 0.9 or self.int else self.r.choice(["123456789012345678901234567890", "-1/98765432109876543210", "0.5".replace("0.5", "7/8")])

    def atom(self, bs=(1, 2, 3)):
        r, x = self.r, self.r.random()
        if x < 0.3 and bs:
            return {"t": "bool", "v": r.choice(bs)}
        if x < 0.33:
            return {"t": r.choice(["true", "false"])}
        if x < 0.6 or not bs:
            return {"t": "con", "p": self.poly([1, 2, 3]), "r": r.choice(RELS)}
        if x < 0.82:
            w = r.choice(self.vw)
            return {"t": "bv", "r": r.choice(["eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"]), "x": self.bv(w), "y": self.bv(w)}
        return {"t": "ueq", "x": self.uterm(), "y": self.uterm(), "neg": r.random() < 0.4}

    def poly(self, vs, n=3, deg=3):
        return super().poly(vs, n, deg)

    def boolean(self, d):
        """A formula over Booleans only (sometimes with a constraint)."""
        r = self.r
        if d == 0 or r.random() < 0.25:
            return {"t": "bool", "v": r.randint(1, 3)} if r.random() < 0.93 else r.choice([{"t": "true"}, {"t": "false"}])
        k = r.choice(["and", "or", "xor", "iff", "implies", "ite", "not"])
        n = {"implies": 2, "ite": 3, "not": 1}.get(k) or r.choice([2, 2, 3])
        return {"t": k, "a": [self.boolean(d - 1) for _ in range(n)]}

    def cas(self, d, lang):
        """A formula over Booleans and constraints, with the connectives of a computer algebra system."""
        r = self.r
        if d == 0 or r.random() < 0.15:
            x = r.random()
            if x < 0.3:
                return {"t": "bool", "v": r.randint(1, 3)}
            return {"t": "con", "p": self.poly([1, 2, 3]), "r": r.choice(RELS)} if x < 0.97 else {"t": r.choice(["true", "false"])}
        k = r.choice(["and", "or", "iff", "implies", "not"] + ["xor"] * (lang == "maple"))
        n = {"and": r.choice([2, 3]), "or": r.choice([2, 3]), "not": 1}.get(k, 2)
        return {"t": k, "a": [self.cas(d - 1, lang) for _ in range(n)]}

    def point(self):
        p = super().point()
        p["b"] = [self.r.random() < 0.5 for _ in range(3)]
        return p


def header(g, r, names=None, bnames=None):
    return {"op": "begin", "nv": 3, "types": ("i" if g.int else "r") * 3, "ints": [g.int] * 3, "nb": 3, "vw": g.vw, "nu": g.nu, "names": names or r.choice(NAMES),
            "bnames": bnames or r.choice(BNAMES), "pts": [g.point() for _ in range(4)]}


class Infix:
    """Token lists of a polynomial or a formula."""

    def __init__(self, r, names, bnames):
        self.r, self.names, self.bnames = r, names, bnames

    def o(self, s):
        return ["o", s, ""]

    def n(self, exp=False):
        r = self.r
        if exp:
            v = r.choice([0, 1, 2, 3])
            return ["n", str(v), str(v)]
        return r.choice([["n", "0", "0"], ["n", "1", "1"], ["n", "2", "2"], ["n", "7", "7"], ["n", "12", "12"], ["n", "0.5", "1/2"], ["n", "2.25", "9/4"], ["n", "1000000007", "1000000007"],
                         ["n", "123456789012345678901", "123456789012345678901"]])

    def v(self):
        i = self.r.randrange(3)
        return ["v", self.names[i], str(i + 1)]

    def factor(self, d):
        r, x = self.r, self.r.random()
        if d and x < 0.35:
            return [self.o("(")] + self.sum(d - 1) + [self.o(")")]
        if d and x < 0.45:
            return [self.o(r.choice("+-"))] + self.factor(d - 1)
        out = []
        if x < 0.75:
            out.append(self.n())
            if r.random() < 0.2:
                out += [self.o("/"), r.choice([["n", "2", "2"], ["n", "3", "3"], ["n", "10", "10"]])]
        if not out or r.random() < 0.3:
            out.append(self.v())
            if r.random() < 0.4:
                out += [self.o("^"), self.n(True)]
        return out

    def prod(self, d):
        out = self.factor(d)
        for _ in range(self.r.choice([0, 0, 1, 2])):
            out += [self.o("*")] + self.factor(d)
        return out

    def sum(self, d):
        out = self.prod(d)
        for _ in range(self.r.choice([0, 1, 1, 2])):
            out += [self.o(self.r.choice("+-"))] + self.prod(d)
        return out

    def terms(self):
        """A sum of terms: coefficients (in parentheses or not) and powers of variables, joined by *."""
        r, out = self.r, []
        for k in range(r.choice([1, 1, 2, 3, 4])):
            if k:
                out.append(self.o("+"))
            fs = []
            for _ in range(r.choice([0, 1, 1, 1, 2])):
                v = r.choice(["0", "1", "2", "3", "12", "123456789012345678901"])
                c = [self.o("-")] * r.choice([0, 1]) + [["n", v, v]]
                fs.append([self.o("(")] + c + [self.o(")")] if r.random() < 0.3 else c)
            vs = [0, 1, 2]
            r.shuffle(vs)
            vs = vs[:r.randint(0 if fs else 1, 3)]
            if vs and r.random() < 0.05:
                vs.append(vs[0])
            for i in vs:
                fs.append([["v", self.names[i], str(i + 1)]] + ([self.o("^"), self.n(True)] if r.random() < 0.4 else []))
            r.shuffle(fs)
            for i, f in enumerate(fs):
                out += ([self.o("*")] if i else []) + f
        return out

    def pluses(self, toks):
        """White space is allowed around the terms."""
        r = self.r
        return [r.choice(["", " "]) if t[1] == "+" or (i + 1 < len(toks) and toks[i + 1][1] == "+") else "" for i, t in enumerate(toks)]

    def formula(self, d):
        r = self.r
        if d == 0 or r.random() < 0.2:
            i = r.randrange(3)
            return [["v", self.bnames[i], str(i + 1)]]
        x = r.random()
        if x < 0.2:
            f = [self.o(r.choice(["not", "NOT"]))] + self.formula(d - 1)
        elif x < 0.3:
            f = self.formula(d - 1)
        elif x < 0.6:
            f = self.formula(d - 1) + [self.o(r.choice(["IMPLIES", "iff", "xor"]))] + self.formula(d - 1)
        else:
            k = r.choice(["AND", "OR"])
            f = self.formula(d - 1)
            for _ in range(r.choice([1, 1, 2])):
                f += [self.o(k)] + self.formula(d - 1)
        return [self.o("(")] + f + [self.o(")")]

    def text(self, toks):
        """Separators after each token: words next to each other need one."""
        r = self.r
        word = lambda t: t[1][0].isalnum() or t[1][0] == "_"
        return [r.choice(["", "", " ", "  ", "\t"]) if i + 1 == len(toks) or not (word(t) and word(toks[i + 1])) else " " for i, t in enumerate(toks)]


def session(r, n):
    g = Gen(r)
    h = header(g, r)
    s = [h]
    inf = Infix(r, h["names"], h["bnames"])
    for _ in range(n):
        x = r.random()
        if x < 0.3:
            s.append({"op": "smt", "f": g.tree(r.choice([0, 1, 1, 2, 3]), (1, 2, 3))})
        elif x < 0.36:
            s.append({"op": "smtp", "p": g.poly([1, 2, 3], 5, 4)})
        elif x < 0.38:
            d = r.randint(0, 4)
            s.append({"op": "smtu", "p": [g.num() for _ in range(d)] + [r.choice(["1", "-2", "1/3"])]})
        elif x < 0.40:
            s.append({"op": "smtq", "q": g.num()})
        elif x < 0.42:
            s.append({"op": "casp", "lang": r.choice(CAS), "p": g.poly([1, 2, 3], 5, 4)})
        elif x < 0.43:
            d = r.randint(0, 4)
            s.append({"op": "casu", "lang": r.choice(CAS), "p": [g.num() for _ in range(d)] + [r.choice(["1", "-2", "1/3"])]})
        elif x < 0.48:
            lang = r.choice(CAS)
            s.append({"op": "casf", "lang": lang, "f": g.cas(r.choice([0, 1, 1, 2, 3]), lang)})
        elif x < 0.52:
            s.append({"op": "show", "p": g.poly([1, 2, 3], 5, 4)})
        elif x < 0.59:
            s.append({"op": "script", "fs": [g.tree(r.choice([0, 1, 2]), (1, 2, 3)) for _ in range(r.choice([1, 1, 2, 3]))], "logic": r.choice(["QF_LRA", "QF_NRA", "QF_BV", "QF_UF"]),
                      "obj": g.poly([1, 2, 3]) if r.random() < 0.4 else [], "getmodel": r.random() < 0.5})
        elif x < 0.65:
            es = []
            for k in [["x", 1], ["x", 2], ["x", 3], ["b", 1], ["b", 2], ["b", 3], ["v", 1], ["v", 2], ["v", 3], ["u", 1], ["u", 2], ["f", 1], ["f", 2]]:
                if r.random() < 0.4:
                    w = g.vw[k[1] - 1] if k[0] == "v" else 0
                    es.append([k, {"x": ["q", g.num()], "b": ["b", r.random() < 0.5], "v": ["v", w, str(r.randrange(1 << w))], "u": ["s", r.randint(0, 3)],
                                   "f": ["f", g.table(k[1]) if k[0] == "f" else []]}[k[0]]])
            r.shuffle(es)
            s.append({"op": "model", "es": es})
        elif x < 0.77:
            toks = inf.sum(r.choice([0, 1, 1, 2]))
            s.append({"op": "ppoly", "toks": toks, "seps": inf.text(toks), "known": r.randint(0, 3)})
        elif x < 0.82:
            toks = inf.terms()
            s.append({"op": "spoly", "toks": toks, "seps": inf.pluses(toks)})
        elif x < 0.84:
            p = [inf.o("(")] + inf.sum(1) + [inf.o(")")] if r.random() < 0.6 else [inf.v()]
            # never zero
            q = [inf.o("("), inf.v(), inf.o("*"), inf.v(), inf.o(r.choice("+-")), inf.n(), inf.o(")")] if r.random() < 0.6 else [inf.v()]
            toks = p + [inf.o("/")] + q if r.random() < 0.8 else p
            s.append({"op": "prat", "toks": toks, "seps": inf.text(toks), "known": r.randint(0, 3)})
        elif x < 0.9:
            toks = inf.formula(r.choice([0, 1, 2, 3]))
            s.append({"op": "pform", "toks": toks, "seps": inf.text(toks), "known": r.randint(0, 3), "bnames": h["bnames"]})
        elif x < 0.94:
            fs = [g.boolean(r.choice([0, 1, 1, 2])) for _ in range(r.choice([1, 1, 2]))]
            if r.random() < 0.1:
                fs.append({"t": "con", "p": [[[1, 0, 0], "1"]], "r": "<"})
            s.append({"op": "dimacs", "fs": fs})
        elif x < 0.97:
            s.append(dimacs(r))
        else:
            s.append(opb(r))
    return s


def dimacs(r):
    nv = r.randint(1, 4)
    lines = [{"k": "c", "ls": [], "t": "c a comment"}] if r.random() < 0.4 else []
    ncl = r.randint(0, 5)
    lines.append({"k": "p", "ls": [], "t": r.choice([f"p cnf {nv} {ncl}", f"p  cnf {nv}  {ncl}", f"p cnf {nv} {ncl} "])})
    while True:
        toks = []
        for _ in range(ncl):
            toks += [r.choice([1, -1]) * r.randint(1, nv) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3]))] + [0]
        if toks and len(toks) > 1 and toks[-2] != 0 and r.random() < 0.15:
            toks.pop()
        layout = r.choice(["each", "free"])
        cur = []
        for t in toks:
            cur.append(t)
            if (t == 0 if layout == "each" else r.random() < 0.25):
                lines.append({"k": "l", "ls": cur, "t": r.choice(["", "", " "]) + r.choice([" ", " ", "  ", "\t"]).join(map(str, cur)) + r.choice(["", "", " "])})
                cur = []
                if r.random() < 0.1:
                    lines.append(r.choice([{"k": "blank", "ls": [], "t": ""}, {"k": "c", "ls": [], "t": "c 1 2 0"}]))
        if cur:
            lines.append({"k": "l", "ls": cur, "t": " ".join(map(str, cur))})
        if r.random() < 0.7:
            break
        lines.append({"k": "reset", "ls": [], "t": "reset"})
    if lines[-1]["k"] == "reset":
        lines.append({"k": "c", "ls": [], "t": "c end"})
    return {"op": "rdimacs", "nv": nv, "lines": lines, "text": "\n".join(x["t"] for x in lines) + r.choice(["\n", "\n", "", "\n\n"])}


def opb(r):
    nv = r.randint(1, 4)
    names = r.choice([["x1", "x2", "x3", "x4"], ["x1", "x11", "x111", "x"], ["a", "b_1", "b_", "b"]])
    lin = lambda: [[v, str(r.choice([1, -1, 2, -2, 3, 5, -7, 100000]))] for v in r.sample(range(1, nv + 1), r.randint(1, nv))]
    sp = lambda: r.choice([" ", " ", "  ", "\n "])
    show = lambda p: sp().join((("+" if r.random() < 0.5 else "") if c[0] != "-" else "") + c + " " + names[v - 1] for v, c in p)
    t = "* #variable= %d #constraint= 2\n" % nv if r.random() < 0.6 else ""
    obj = lin() if r.random() < 0.5 else []
    if obj:
        t += "min: " + show(obj) + r.choice([" ;\n", ";\n"])
    cons = []
    for _ in range(r.randint(0 if obj else 1, 3)):
        c = {"p": lin(), "rel": r.choice([">=", "=", ">=", "<=", "<", ">", "!="]), "c": str(r.choice([0, 1, 2, 3, -1, -4, 5]))}
        if r.random() < 0.15:
            c["p"].append([c["p"][0][0], "1"])
        cons.append(c)
        t += show(c["p"]) + sp() + c["rel"] + sp() + c["c"] + r.choice([" ;", ";"]) + "\n"
        if r.random() < 0.15:
            t += "* another comment\n"
    return {"op": "ropb", "nv": nv, "obj": obj, "cons": cons, "text": t}


def run(ctx):
    r = ctx.rng("r")
    ctx.model("MC_Text", {"Out": "FALSE", "Depth": ctx.pick(5, 6)}, invariants=("Laws",), workers=8)
    g = Gen(r)
    h = header(g, r, ["x", "y", "z"])
    s = ctx.generate("MC_Text", {"Out": "TRUE", "Depth": ctx.pick(5, 6)}, header=h)
    s += [session(r, 25) for _ in range(ctx.pick(900, 9000))]
    ctx.validate("d_text", "T_Text", s, source="all short polynomial texts and random texts and objects")
