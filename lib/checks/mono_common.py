"""Random sessions over monomials and terms."""
from fractions import Fraction
from gens import mono, nzrat, rat


def isqrt_exact(s):
    """Root of a rational as string, or 'none'."""
    from math import isqrt
    f = Fraction(s)
    if f < 0:
        return "none"
    a, b = isqrt(f.numerator), isqrt(f.denominator)
    return str(Fraction(a, b)) if a * a == f.numerator and b * b == f.denominator else "none"


def vec(r, nv, big=False):
    """An exponent vector; sometimes sparse, sometimes with huge exponents."""
    x = r.random()
    if x < 0.06:
        return [0] * nv
    if x < 0.5:
        return mono(r, nv, r.choice([1, 2, 3, 6]))
    m = [r.choice([0, 0, 1, 1, 2, 3, 4]) for _ in range(nv)]
    if big and r.random() < 0.3:
        m[r.randrange(nv)] = r.choice([255, 256, 1000, 65535, 65536])
    return m


def term(r, nv, zero=True):
    c = rat(r, 2) if zero else nzrat(r, 2)
    if r.random() < 0.3:
        f = Fraction(r.randint(0, 9), r.randint(1, 6))
        c = str(f * f) if f or zero else "4"
    m = vec(r, nv)
    if r.random() < 0.3:
        m = [2 * e for e in m]
    if c == "0":
        m = [0] * nv
    return [m, c]


def related(r, nv, t):
    """A term related to t: equal, same monomial, multiple or divisor."""
    x = r.random()
    m, c = list(t[0]), t[1]
    if x < 0.15 and c != "0":
        return [m, c]
    if x < 0.35:
        return [m, nzrat(r, 2)]
    if x < 0.6:
        return [[r.randint(0, e) for e in m], nzrat(r, 2)]
    if x < 0.75:
        i, j = r.randrange(nv), r.randrange(nv)
        if m[i]:
            m[i] -= 1
            m[j] += 1
        return [m, nzrat(r, 2)]
    return term(r, nv, False)


def session(r, length, kind):
    nv = r.choice([1, 2, 3, 3, 4, 6])
    k = r.choice([3, 5])
    types = "".join(r.choice("ri") for _ in range(nv))
    out = [{"op": "begin", "nv": nv, "k": k, "types": types}]
    regs = [[0] * nv for _ in range(k + 1)]
    reg = lambda: r.randint(1, k)
    v = lambda: r.randint(1, nv)

    def mk(d):
        m = vec(r, nv, True)
        if r.random() < 0.4:
            m = list(related(r, nv, [regs[reg()], "1"])[0])
        regs[d] = m
        return {"op": "mk", "d": d, "m": m, "how": r.choice(["list", "deg", "init", "prod"])}
    for i in range(1, k + 1):
        out.append(mk(i))
    zero = [0] * nv
    for _ in range(length):
        x = r.random()
        if kind == "order":
            if x < 0.3:
                t = term(r, nv)
                out.append({"op": "ecmp", "x": t, "y": related(r, nv, t)})
            elif x < 0.45:
                out.append({"op": "ecmpv", "x": [r.choice([vec(r, nv), [1 if i == v() - 1 else 0 for i in range(nv)], zero]), "1"], "v": v()})
            elif x < 0.75:
                t = term(r, nv)
                y = related(r, nv, t)
                if r.random() < 0.2:
                    t = [[0] * nv, t[1]]
                if r.random() < 0.3:
                    t[1] = r.choice(["1", y[1]])
                out.append({"op": "tcmp", "x": t, "y": y, "v": v()})
            elif x < 0.85:
                d = reg()
                out.append(mk(d))
            elif x < 0.95:
                out.append({"op": "cmp", "a": reg(), "b": reg()})
            else:
                out.append({"op": "cmpv", "a": reg(), "v": v()})
            continue
        d, a, b = reg(), reg(), reg()
        if x < 0.14:
            out.append(mk(d))
        elif x < 0.24:
            n = [p + q for p, q in zip(regs[a], regs[b])]
            if sum(n) > 300000:
                continue
            out.append({"op": "mul", "d": d, "a": a, "b": b})
            regs[d] = n
        elif x < 0.3:
            i = v()
            out.append({"op": r.choice(["mulv", "vmul"]), "d": d, "a": a, "v": i})
            n = list(regs[a])
            n[i - 1] += 1
            regs[d] = n
        elif x < 0.32:
            i, j = v(), v()
            out.append({"op": "vv", "d": d, "v": i, "w": j})
            n = list(zero)
            n[i - 1] += 1
            n[j - 1] += 1
            regs[d] = n
        elif x < 0.38:
            if regs[a] == zero or regs[b] == zero:
                continue
            out.append({"op": "gcd", "d": d, "a": a, "b": b})
            regs[d] = [min(p, q) for p, q in zip(regs[a], regs[b])]
        elif x < 0.44:
            out.append({"op": "lcm", "d": d, "a": a, "b": b})
            regs[d] = [max(p, q) for p, q in zip(regs[a], regs[b])]
        elif x < 0.48:
            if regs[a] == zero:
                continue
            out.append({"op": "lcmdiv", "d": d, "a": a, "b": b})
            regs[d] = [max(p, q) - q for p, q in zip(regs[a], regs[b])]
        elif x < 0.52:
            n = r.choice([0, 1, 2, 3, 7])
            if sum(regs[a]) * n > 300000:
                continue
            out.append({"op": "pow", "d": d, "a": a, "n": n})
            regs[d] = [e * n for e in regs[a]]
        elif x < 0.54:
            i, n = v(), r.randint(1, 5)
            out.append({"op": "powv", "d": d, "v": i, "n": n})
            regs[d] = [n if j == i - 1 else 0 for j in range(nv)]
        elif x < 0.7:
            if regs[a] == zero:
                continue
            o = r.choice(["dropv", "sep", "div", "div", "divv", "sqrt", "divisible", "divisible"])
            if o in ("div", "divisible"):
                out.append({"op": o, "d": d, "a": a, "b": b})
                if o == "div" and all(p >= q for p, q in zip(regs[a], regs[b])):
                    regs[d] = [p - q for p, q in zip(regs[a], regs[b])]
            elif o in ("dropv", "divv"):
                i = v()
                out.append({"op": o, "d": d, "a": a, "v": i})
                n = list(regs[a])
                if o == "dropv":
                    n[i - 1] = 0
                    regs[d] = n
                elif n[i - 1]:
                    n[i - 1] -= 1
                    regs[d] = n
            else:
                out.append({"op": o, "d": d, "a": a})
                if o == "sep":
                    regs[d] = [1 if e else 0 for e in regs[a]]
                elif all(e % 2 == 0 for e in regs[a]):
                    regs[d] = [e // 2 for e in regs[a]]
        elif x < 0.74:
            out.append({"op": r.choice(["copy"]), "d": d, "a": a})
            regs[d] = list(regs[a])
        elif x < 0.78:
            out.append({"op": "release", "a": a})
            regs[a] = list(zero)
        elif x < 0.8:
            out.append({"op": "churn", "n": r.choice([50, 300, 3000]), "s": r.randrange(10 ** 6), "free": r.random() < 0.5})
            out.append({"op": "dump"})
        elif x < 0.86:
            if regs[a] != zero:
                out.append({"op": "view", "a": a})
        else:
            t = term(r, nv)
            o = r.choice(["tmul", "tdiv", "tview", "tdiv"])
            c = {"op": o, "x": t, "v": v()}
            if o == "tview":
                c["n"] = r.choice([0, 1, 2, 3])
                c["root"] = isqrt_exact(t[1])
                if t[0] == zero and r.random() < 0.7:
                    continue
            else:
                c["y"] = related(r, nv, t)
            out.append(c)
    out.append({"op": "dump"})
    return out
