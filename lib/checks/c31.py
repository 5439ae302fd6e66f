from gens import integer, rat, terms

DRIVERS = ["d_rew"]


def pts(r, nv, n=6):
    return [[rat(r, 1) for _ in range(nv)] for _ in range(n)]


def quad(r, nv):
    """A quadratic polynomial that often is a sum of squares."""
    from fractions import Fraction as F
    d = {}
    for _ in range(r.randint(1, 3)):
        lin = [F(r.randint(-2, 2), r.choice([1, 1, 2, 3])) for _ in range(nv + 1)]
        k = F(r.choice([1, 1, 2, 3, -1]), r.choice([1, 1, 5])) if r.random() < 0.3 else F(r.randint(1, 4))
        for i in range(nv + 1):
            for j in range(nv + 1):
                m = [0] * nv
                for x in (i, j):
                    if x < nv:
                        m[x] += 1
                d[tuple(m)] = d.get(tuple(m), 0) + k * lin[i] * lin[j]
    if r.random() < 0.3:
        z = (0,) * nv
        d[z] = d.get(z, 0) + r.choice([-1, 1, F(1, 7)])
    s = r.choice([1, 1, -1])
    return [[list(m), str(s * c)] for m, c in d.items() if c != 0]


def even(r, nv):
    return [[[2 * r.randint(0, 2) for _ in range(nv)], str(r.choice([1, 1, 2, 3, 1, -1]))]] + \
           [[[e, *[0] * (nv - 1)], str(r.choice([1, 5, -2]))] for e in (6, 8) if r.random() < 0.5]


def session(r, n):
    nv = r.randint(1, 4)
    out = [{"op": "begin", "nv": nv}]
    for _ in range(n):
        x = r.random()
        if x < 0.35:
            out.append({"op": "horner", "p": terms(r, nv, r.randint(0, 7), r.choice([2, 4, 6]), 2), "h": r.randint(0, 3)})
        elif x < 0.55:
            p = quad(r, nv) or [[[2] + [0] * (nv - 1), "1"]]
            out.append({"op": "sos", "p": p, "nt": r.random() < 0.5})
        elif x < 0.8:
            p = r.choice([quad, even])(r, nv) if r.random() < 0.7 else terms(r, nv, r.randint(0, 4), 4, 1)
            out.append({"op": "def", "p": p, "pts": pts(r, nv)})
        elif x < 0.9:
            out.append({"op": "xgcd", "a": integer(r, 2), "b": integer(r, 2)})
        else:
            a = [r.choice([integer(r, 1), str(r.choice([1, -1]) * r.randint(1, 60))]) for _ in range(nv)]
            out.append({"op": "dio", "a": [x if x != "0" else "4" for x in a], "c": str(r.randint(-60, 60))})
    return out


def run(ctx):
    cs = ctx.pick('{"-1", "0", "2"}', '{"-1", "0", "1", "2"}')
    ctx.model("MC_Rew", {"Out": "FALSE", "Cs": cs}, invariants=("Laws",), workers=8)
    gen = ctx.generate("MC_Rew", {"Out": "TRUE", "Cs": cs}, header={"op": "begin", "nv": 2})
    gen.append([{"op": "begin", "nv": 1}] + [{"op": "cheb", "n": n} for n in range(ctx.pick(25, 60))])
    r = ctx.rng("r")
    gen += [session(r, 25) for _ in range(ctx.pick(800, 10000))]
    ctx.validate("d_rew", "T_Rew", gen, source="tlc and random inputs")
