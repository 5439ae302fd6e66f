"""Random sessions over functions on multivariate polynomials."""
from fractions import Fraction

from gens import integer, mono, nzrat, rat, terms
from checks.mono_common import isqrt_exact


def session(r, length, kind):
    nv = r.choice([1, 2, 2, 3, 3, 4])
    k = 4
    ring = "Q" if kind == "div" or r.random() < 0.7 else "Z"
    size = r.choice([1, 1, 1, 2])
    num = (lambda: integer(r, size)) if ring == "Z" else (lambda: rat(r, size))
    out = [{"op": "begin", "nv": nv, "k": k, "ring": ring, "types": "r" * nv}]
    deg = [0] * (k + 1)
    reg = lambda: r.randint(1, k)
    v = lambda: r.randint(1, nv)

    def emit(c, d=None, n=0):
        out.append(c)
        if d:
            deg[d] = n

    def lit(d=None, n=None, md=None):
        d = d or reg()
        md = md or r.choice([1, 2, 3, 4])
        n = n if n is not None else r.choice([0, 1, 1, 2, 3, 4, 5])
        p = terms(r, nv, n, md, size, ring == "Z")
        if p and r.random() < 0.25:
            # only one variable
            i = r.randrange(nv)
            p = [[[sum(t[0]) if j == i else 0 for j in range(nv)], t[1]] for t in p]
            q = {}
            for t in p:
                q[tuple(t[0])] = t[1]
            p = [[list(m), c] for m, c in q.items()]
        if r.random() < 0.2:
            p = [t for t in p if any(t[0])]
        emit({"op": "lit", "d": d, "p": p, "how": r.choice(["vec", "acc"])}, d, md)

    def term():
        c = num()
        m = mono(r, nv, r.choice([1, 3, 6])) if c != "0" else [0] * nv
        return [m, c]

    def nummap(full):
        return [[i, num()] for i in range(1, nv + 1) if full or r.random() < 0.5]
    for i in range(1, k + 1):
        lit(i)
    for _ in range(length):
        x = r.random()
        a, b, d = reg(), reg(), reg()
        if x < 0.22:
            lit()
            continue
        if x < 0.34:
            f = r.choice(["mul", "mul", "add", "sub"])
            n = deg[a] + deg[b] if f == "mul" else max(deg[a], deg[b])
            if n <= 6:
                emit({"op": "bin", "f": f, "d": d, "a": a, "b": b}, d, n)
            continue
        x = r.random()
        if kind == "subst":
            if x < 0.16 and deg[a] * max(1, deg[b]) <= 8:
                if r.random() < 0.5:
                    emit({"op": "subst", "d": d, "a": a, "v": v(), "b": b}, d, deg[a] * max(1, deg[b]))
                else:
                    emit({"op": "substin", "a": a, "v": v(), "b": b}, a, deg[a] * max(1, deg[b]))
            elif x < 0.3:
                m = [[i, reg()] for i in range(1, nv + 1) if r.random() < 0.6]
                n = deg[a] * max([1] + [deg[j] for _, j in m])
                if n <= 8:
                    emit({"op": "substm", "d": d, "a": a, "m": m}, d, n)
            elif x < 0.38:
                emit({"op": "substn", "d": d, "a": a, "m": nummap(False)}, d, deg[a])
            elif x < 0.44:
                m = [[i, term()] for i in range(1, nv + 1) if r.random() < 0.6]
                n = deg[a] * 6
                if deg[a] <= 2:
                    emit({"op": "substt", "d": d, "a": a, "m": m}, d, n)
            elif x < 0.48:
                emit({"op": "tsubst", "x": term(), "m": nummap(False)})
            elif x < 0.56:
                emit({"op": "eval", "a": a, "m": nummap(True)})
            elif x < 0.6:
                emit({"op": "teval", "x": term(), "m": nummap(True)})
            elif x < 0.67:
                if r.random() < 0.15:
                    # a high power, derived often
                    e = r.choice([4, 5, 6, 8, 12, 21, 26, 40])
                    w = v()
                    m = [e if i + 1 == w else r.choice([0, 0, 1]) for i in range(nv)]
                    emit({"op": "lit", "d": a, "p": [[m, r.choice(["1", "-1", "3"])], [[0] * nv, "2"]], "how": "acc"}, a, e + nv)
                    emit({"op": "deriv", "d": d, "a": a, "v": w, "n": r.choice([e, e - 1, e - 2, e // 2, e + 1])}, d, e + nv)
                else:
                    emit({"op": "deriv", "d": d, "a": a, "v": v(), "n": r.choice([0, 1, 1, 2, 3, 4])}, d, deg[a])
            elif x < 0.71:
                t, w = term(), v()
                if t[1] != "0" and r.random() < 0.3:
                    t[0][w - 1] = r.choice([4, 5, 7, 20, 21, 22, 30])
                e = t[0][w - 1]
                emit({"op": "tderiv", "x": t, "v": w, "n": r.choice([0, 1, 1, 2, 3, e, e, max(0, e - 1), e // 2, e + 1])})
            elif x < 0.77:
                emit({"op": "uni", "a": a, "v": v()})
            elif x < 0.79:
                emit({"op": "uni1", "a": a})
            elif x < 0.85 and deg[a] * deg[b] <= 8:
                emit({"op": "usubst", "a": a, "w": v(), "v": v(), "b": b})
            elif x < 0.89:
                emit({"op": "uderiv", "a": a, "w": v(), "v": v(), "n": r.choice([0, 1, 1, 2, 3, 4, 5])})
            elif x < 0.92 and deg[a] * deg[b] <= 8:
                emit({"op": "ueval", "a": a, "w": v(), "b": b})
            elif x < 0.97:
                emit({"op": "info", "a": a, "v": v()})
            else:
                emit({"op": "degs", "a": a})
        else:
            if x < 0.3:
                # a multiple of b, perhaps slightly spoilt
                if deg[a] + deg[b] > 7:
                    continue
                e = r.choice([i for i in range(1, k + 1) if i != b])
                emit({"op": "bin", "f": "mul", "d": e, "a": a, "b": b}, e, deg[a] + deg[b])
                if r.random() < 0.2:
                    f = r.choice([i for i in range(1, k + 1) if i not in (b, e)])
                    lit(f, 1, 3)
                    emit({"op": "bin", "f": "add", "d": e, "a": e, "b": f}, e, max(deg[e], 3))
                op = r.choice(["try", "slash", "quot", "rem", "utry", "try"])
                c = {"op": op, "d": d, "a": e, "b": b}
                if op == "utry":
                    c["v"] = v()
                emit(c)
                if op != "utry":
                    deg[d] = deg[e]
            elif x < 0.45:
                op = r.choice(["try", "quot", "rem"])
                emit({"op": op, "d": d, "a": a, "b": b}, d, max(deg[a], deg[d]))
            elif x < 0.57:
                if r.random() < 0.9:
                    emit({"op": "norm", "d": a, "a": a}, a, deg[a])
                    emit({"op": "norm", "d": b, "a": b}, b, deg[b])
                emit({"op": "spoly", "d": d, "a": a, "b": b}, d, deg[a] + deg[b])
            elif x < 0.72:
                if deg[a] <= 5 and deg[b] <= 5:
                    emit({"op": "prem", "d": d, "a": a, "b": b, "v": v()}, d, 20)
            elif x < 0.77:
                emit({"op": "divc", "d": d, "a": a, "c": nzrat(r, size)}, d, deg[a])
            elif x < 0.8:
                emit({"op": "divu", "d": d, "a": a, "n": r.choice([1, 2, 3, 12, 1000003])}, d, deg[a])
            elif x < 0.85:
                emit({"op": "norm", "d": d, "a": a}, d, deg[a])
            elif x < 0.93:
                emit({"op": "coprime", "a": a})
            elif x < 0.96:
                single = False
                if r.random() < 0.7:
                    f = Fraction(r.randint(1, 9), r.randint(1, 6))
                    m = [2 * e for e in mono(r, nv, 3)]
                    emit({"op": "lit", "d": a, "p": [[m, str(f * f)]], "how": "vec"}, a, 6)
                    single = True
                emit({"op": "sqrt", "a": a, "single": single})
            else:
                emit({"op": "tdivide", "x": term(), "c": nzrat(r, size), "v": v()})
    out.append({"op": "dump"})
    return out
