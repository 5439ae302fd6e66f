"""Factorised polynomials (Fact.tla)."""
from checks.c34 import poly
from gens import rat

DRIVERS = ["d_fp"]


def facts(r, n):
    """Few factors, so that they meet again."""
    nv, k = r.choice([1, 2, 2, 3]), 4
    out = [{"op": "begin", "nv": nv, "k": k}]
    size = [0] * (k + 1)
    reg = lambda: r.randint(1, k)
    pool = [poly(r, nv, 0) for _ in range(3)]

    def new(d):
        p = r.choice(pool) if r.random() < 0.8 else poly(r, nv)
        const = all(not any(m) for m, _ in p)
        out.append({"op": "new", "d": d, "p": p, "how": "num" if const and r.random() < 0.7 else "poly"})
        size[d] = 0 if const else 1

    for d in range(1, k + 1):
        new(d)
    for _ in range(n):
        x, a, b, d = r.random(), reg(), reg(), reg()
        if size[a] > 4:
            new(a)
            continue
        if x < 0.3:
            f = r.choice(["add", "sub", "mul", "mul", "mul"])
            if f == "mul" and size[a] + size[b] > 5:
                continue
            ip = r.random() < 0.4
            out.append({"op": "bin", "a": a, "b": b, "d": d, "f": f, "ip": ip})
            size[a if ip else d] = size[a] + size[b] if f == "mul" else max(size[a], size[b])
        elif x < 0.4:
            ip = r.random() < 0.4
            out.append({"op": "num", "a": a, "d": d, "f": r.choice(["add", "sub", "mul", "div"]), "c": rat(r, 1), "ip": ip, "left": r.random() < 0.5})
            size[a if ip else d] = size[a]
        elif x < 0.44:
            out.append({"op": "neg", "a": a, "d": d})
            size[d] = size[a]
        elif x < 0.48:
            e = r.choice([0, 1, 2, 3]) if size[a] <= 1 else r.choice([0, 1, 2]) if size[a] == 2 else 1
            out.append({"op": "pow", "a": a, "d": d, "n": e})
            size[d] = size[a] * e
        elif x < 0.52:
            out.append({"op": "der", "a": a, "d": d, "v": r.randint(1, nv), "n": 1})
            size[d] = size[a]
        elif x < 0.56:
            out.append({"op": "copy", "a": a, "d": d, "mv": r.random() < 0.5})
            size[d] = size[a]
        elif x < 0.62 and size[a] + size[b] <= 6:
            out.append({"op": "gcd", "a": a, "b": b, "d": d, "rest": r.random() < 0.5})
            size[d] = min(size[a], size[b])
        elif x < 0.68 and size[a] + size[b] <= 6:
            out.append({"op": r.choice(["lcm", "cm", "cd"]), "a": a, "b": b, "d": d})
            size[d] = size[a] + size[b]
        elif x < 0.71:
            out.append({"op": "lazy", "a": a, "b": b})
        elif x < 0.74 and size[a] + size[b] <= 5:
            out.append({"op": "quo", "a": a, "b": b, "d": d, "ip": r.random() < 0.5})
            size[d] = size[a]
        elif x < 0.78:
            out.append({"op": "factor", "a": a})
        elif x < 0.83:
            out.append({"op": "eval", "a": a, "m": [[i + 1, rat(r, 1)] for i in range(nv)]})
        elif x < 0.87:
            out.append({"op": "subst", "a": a, "d": d, "m": [[i + 1, rat(r, 1)] for i in range(nv) if r.random() < 0.5]})
            size[d] = size[a]
        elif x < 0.93:
            out.append({"op": "view", "a": a})
        else:
            out.append({"op": "cmp", "a": a, "b": b, "c": rat(r, 0)})
    return out


def run(ctx):
    n = ctx.pick(4, 5)
    ctx.model("MC_Fact", {"Out": "FALSE", "K": n}, invariants=("Laws",), workers=8)
    gen = ctx.generate("MC_Fact", {"Out": "TRUE", "K": n}, header={"op": "begin", "nv": 2, "k": 4})
    r = ctx.rng("f")
    ctx.validate("d_fp", "T_Fact", gen + [facts(r, 25) for _ in range(ctx.pick(1600, 12000))], source="tlc and random histories", skip_rest=True)
