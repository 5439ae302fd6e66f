from gens import terms

DRIVERS = ["d_form"]
RELS = ["=", "!=", "<", "<=", ">", ">="]


def poly(r, nv, k=0):
    x = r.random()
    if x < 0.6:      # related linear polynomials, so that bounds of the same polynomial meet
        m = [0] * nv
        m[k % nv] = 1
        p = [[m, r.choice(["1", "1", "-1", "2"])]]
        if nv > 1 and r.random() < 0.3:
            m2 = [0] * nv
            m2[(k + 1) % nv] = 1
            p.append([m2, r.choice(["1", "-1"])])
        c = r.choice(["-2", "-1", "0", "1", "2"])
        return p + ([[[0] * nv, c]] if c != "0" else [])
    if x < 0.65:
        return [[[0] * nv, "1"]]
    return terms(r, nv, r.randint(1, 3), 2, 0, integral=True)


def node(t, **k):
    return {"t": t, "v": 0, "p": [], "r": "", "a": [], **k}


def tree(r, nv, nb, d):
    x = r.random()
    if d == 0 or x < 0.1:
        return r.choice([node("true"), node("false"), node("bool", v=r.randint(1, nb)), node("con", p=poly(r, nv), r=r.choice(RELS)), node("con", p=poly(r, nv), r=r.choice(RELS))])
    if x < 0.25:
        return node("not", a=[tree(r, nv, nb, d - 1)])
    t = r.choice(["and", "or", "xor", "iff", "implies", "ite"])
    a = [tree(r, nv, nb, d - 1) for _ in range({"implies": 2, "ite": 3}.get(t) or r.randint(1, 3))]
    if len(a) > 1 and r.random() < 0.3:
        i, j = r.sample(range(len(a)), 2)
        a[i] = r.choice([a[j], node("not", a=[a[j]]), a[j]["a"][0] if a[j]["a"] else a[j]])
    return node(t, a=a)


def session(r, n):
    nv, nb = r.choice([1, 1, 2]), r.choice([1, 2, 3])
    t = r.choice("rri")
    pts = [[str(r.randint(-3, 3)) for _ in range(nv)] for _ in range(4)]
    if t == "r":
        pts += [[r.choice(["-3/2", "-1/2", "1/2", "3/2", "1/3"]) for _ in range(nv)]]
    out = [{"op": "begin", "nv": nv, "nb": nb, "types": t * nv, "pts": pts}]
    live, k = {}, 0

    def new(c, size):
        nonlocal k
        k += 1
        live[k] = size
        out.append({**c, "to": k})
    for v in range(1, nb + 1):
        new({"op": "bool", "v": v}, 1)
    for _ in range(r.choice([0, 1, 3])):
        new({"op": "con", "p": poly(r, nv), "rel": r.choice(RELS)}, 1)
    for _ in range(n):
        x = r.random()
        small = [h for h in live if live[h] <= 6] or list(live)
        pick = lambda: r.choice(small if r.random() < 0.8 else list(live))
        if x < 0.1 or not live:
            new({"op": "con", "p": poly(r, nv), "rel": r.choice(RELS)}, 1)
        elif x < 0.12:
            new({"op": "build", "x": tree(r, nv, nb, r.randint(1, 2)), "way": r.random() < 0.5}, 4)
        elif x < 0.13:
            new({"op": "bool", "v": r.randint(1, nb)}, 1)
        elif x < 0.15:
            new({"op": "const", "b": r.random() < 0.5}, 1)
        elif x < 0.25:
            h = pick()
            new({"op": "not", "x": h, "way": r.random() < 0.5}, live[h])
        elif x < 0.62:
            ty = r.choice(["and", "or", "xor", "iff", "implies", "ite", "and", "or"])
            a = [r.choice(small) for _ in range({"implies": 2, "ite": 3}.get(ty) or r.choice([1, 2, 2, 2, 3, 3, 4]))]
            if sum(live[h] for h in a) <= 16:
                new({"op": "mk", "t": ty, "a": a, "way": r.random() < 0.5}, sum(live[h] for h in a))
        elif x < 0.65:
            h = pick()
            new({"op": "copy", "x": h}, live[h])
        elif x < 0.73:
            h = r.choice(list(live))
            live.pop(h)
            out.append({"op": "drop", "x": h})
        elif x < 0.8:
            h = pick()
            new({"op": "resolve", "x": h, "keep": r.random() < 0.5}, live[h] * 2)
        elif x < 0.92:
            out.append({"op": "cnf", "x": r.choice([h for h in live if live[h] <= 10] or small), "keep": r.random() < 0.5, "simp": r.random() < 0.4, "eq": r.random() < 0.5})
        else:
            h = r.choice(small)
            bm = [[v, r.choice(small)] for v in range(1, nb + 1) if r.random() < 0.5]
            am = [[i, poly(r, nv, r.randint(0, 1))] for i in range(1, nv + 1) if r.random() < 0.5]
            way = r.random() < 0.4
            if way:
                bm, am = r.choice([(bm, []), ([], am)])
            sz = live[h] * max([1] + [live[b] for _, b in bm])
            if sz <= 16:
                new({"op": "subst", "x": h, "bm": bm, "am": am, "way": way}, sz)
    return out


def bounds(r):
    """Conjunctions and disjunctions of several bounds of the same polynomials, simplified."""
    nv, t = r.choice([1, 1, 2]), r.choice("rri")
    pts = [[str(v)] * nv for v in (-2, -1, 0, 1, 2)]
    if t == "r":
        pts += [[v] * nv for v in ("-3/2", "-1/2", "1/2", "3/2")]
    out = [{"op": "begin", "nv": nv, "nb": 1, "types": t * nv, "pts": pts}, {"op": "bool", "v": 1, "to": 1}]
    n = r.randint(3, 5)
    for i in range(n):
        c = r.choice(["-1", "0", "1"])
        s = r.choice(["1", "1", "-1", "2"])
        p = [[[1] + [0] * (nv - 1), s]] + ([[[0] * nv, c]] if c != "0" else [])
        if nv == 2:
            p.append([[0, 1], r.choice(["1", "-1", "2"])])
        out.append({"op": "con", "p": p, "rel": r.choice(RELS), "to": 2 + i})
    k = 2 + n
    for _ in range(6):
        a = [r.randint(1, n + 1) for _ in range(r.randint(2, 4))]
        out.append({"op": "mk", "t": r.choice(["and", "or"]), "a": a, "way": True, "to": k})
        out.append({"op": "cnf", "x": k, "keep": r.random() < 0.5, "simp": True, "eq": True})
        if r.random() < 0.5:
            b = [r.randint(1, n + 1) for _ in range(2)] + [k]
            out.append({"op": "mk", "t": r.choice(["and", "or", "ite", "xor"]), "a": b, "way": True, "to": k + 1})
            out.append({"op": "cnf", "x": k + 1, "keep": r.random() < 0.5, "simp": True, "eq": r.random() < 0.5})
            k += 1
        k += 1
    return out


def built(r):
    """Formulas made from temporaries: their operands are not used anywhere else, as those kept are dropped again."""
    nv, nb = r.choice([1, 2]), r.choice([1, 2, 3])
    out = [{"op": "begin", "nv": nv, "nb": nb, "types": r.choice("rri") * nv, "pts": [[str(r.randint(-2, 2)) for _ in range(nv)] for _ in range(4)]}]
    live = []
    for k in range(1, 13):
        out.append({"op": "build", "x": tree(r, nv, nb, r.choice([1, 1, 2])), "way": r.random() < 0.5, "to": k})
        live.append(k)
        while len(live) > 2:
            out.append({"op": "drop", "x": live.pop(r.randrange(len(live)))})
    return out


def run(ctx):
    r = ctx.rng("r")
    ctx.model("MC_Form", {"Out": "FALSE", "MaxLen": 1}, invariants=("Laws",), workers=8)
    hd = {"op": "begin", "nv": 1, "nb": 2, "types": "r", "pts": [["-1"], ["1/2"], ["1"]]}
    s = ctx.generate("MC_Form", {"Out": "TRUE", "MaxLen": ctx.pick(2, 3)}, header=hd)
    s += [session(r, 30) for _ in range(ctx.pick(350, 8000))]
    s += [built(r) for _ in range(ctx.pick(300, 8000))]
    s += [bounds(r) for _ in range(ctx.pick(350, 8000))]
    ctx.validate("d_form", "T_Form", s, source="all small applications and random histories", skip_rest=True)
