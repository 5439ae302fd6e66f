"""Numbers: special values and their neighbourhoods, all short texts, random values."""
import re
from fractions import Fraction as F

from gens import rat

EDGE = sorted({s * ((1 << b) + d) for b in (0, 1, 3, 31, 32, 33, 62, 63, 64, 65, 100, 128) for d in (-2, -1, 0, 1, 2) for s in (1, -1)})


def integer(r, big=True):
    k = r.random()
    if k < 0.35:
        return r.randint(-40, 40)
    if k < 0.7 and big:
        return r.choice(EDGE)
    if k < 0.85:
        return r.randint(-10 ** 6, 10 ** 6)
    return r.randint(-(1 << 140), 1 << 140) if big else r.randint(-(1 << 62), 1 << 62)


def s64(r):
    while True:
        x = integer(r)
        if -(1 << 63) <= x < 1 << 63:
            return x


def frac(r):
    k = r.random()
    if k < 0.3:
        return F(rat(r, 2))
    if k < 0.5:
        return F(integer(r), r.choice([1, 2, 2, 3, 4, 6, 10]))
    if k < 0.8:
        return F(r.randint(-60, 60), r.randint(1, 24))
    return F(integer(r), abs(integer(r)) or 1)


def value(r, t):
    return str(s64(r) if t == "S" else integer(r) if t == "Z" else frac(r))


def pack(cmds, n=12):
    return [[{"op": "begin"}] + cmds[i:i + n] for i in range(0, len(cmds), n)]


def functions(r, n):
    out = []
    for _ in range(n):
        t = r.choice("ZQQS")
        a, b = value(r, t), value(r, t)
        k = r.random()
        if r.random() < 0.1:
            b = a
        if k < 0.15:
            out.append({"op": "un", "t": t, "a": a})
        elif k < 0.3:
            out.append({"op": "cmp", "t": t, "a": a, "b": b})
        elif k < 0.45:
            if t == "Q":
                t = "Z"
                a, b = str(integer(r)), str(integer(r))
            out.append({"op": "idiv", "t": t, "a": a, "b": b})
        elif k < 0.55:
            if t != "Q" and r.random() < 0.8:
                y = s64(r) if t == "S" else integer(r)
                y = max(-9, min(9, y)) if t == "S" else y
                x = int(a) // 10 * y if t == "S" else int(a) * y
                if y:
                    a, b = str(x), str(y)
            out.append({"op": "exdiv", "t": t, "a": a, "b": b})
        elif k < 0.68:
            t = "Z" if t == "S" else t
            out.append({"op": "gcd", "t": t, "a": a, "b": b})
        elif k < 0.76:
            t = r.choice("ZS")
            x, y = (integer(r), integer(r)) if t == "Z" else (r.randint(-(1 << 31), 1 << 31), r.randint(-5000, 1 << 30))
            out.append({"op": "eea", "t": t, "a": str(x), "b": str(y)})
        elif k < 0.82:
            if t == "S":
                a = str(r.randint(-12, 12))
            out.append({"op": "pow", "t": t, "a": a, "n": r.choice([0, 1, 2, 3, 4, 5, 7, 8, 13, 16, 31])})
        elif k < 0.95:
            x = abs(frac(r))
            y = r.random()
            if y < 0.4:
                x = x * x
            elif y < 0.5:
                x = x * x + r.choice([1, -1, F(1, 7)])
            elif y < 0.6:
                x = F(abs(integer(r)) ** 2 + r.choice([-1, 0, 0, 1]), (abs(integer(r)) or 1) ** 2 + r.choice([0, 0, 1]))
            op = r.choice(["sqrtx", "sqrtx", "sqrts", "sqrts", "sqrtf", "rootx"])
            if op == "sqrtx" and r.random() < 0.1:
                x = -x
            out.append({"op": op, "t": "Q", "a": str(x), "n": r.choice([1, 2, 3, 4, 5, 7])})
        elif k < 0.97:
            x = integer(r)
            out.append({"op": "toint", "t": r.choice("ZQ"), "a": str(x), "to": r.choice("SUZ")})
        else:
            out.append({"op": "recip", "t": "Q", "a": str(frac(r))})
    return out


def small(bs):
    """Every function on every (pair of) small value(s)."""
    out = []
    for t in "ZQS":
        vs = [v for v in bs if t == "Q" or v.denominator == 1]
        for a in vs:
            out.append({"op": "un", "t": t, "a": str(a)})
            out += [{"op": "pow", "t": t, "a": str(a), "n": n} for n in range(7)]
            if t == "Q":
                out.append({"op": "recip", "t": t, "a": str(a)})
                for o in ("sqrtx", "sqrts", "sqrtf", "rootx"):
                    out.append({"op": o, "t": t, "a": str(a), "n": 3})
            if t != "S":
                out += [{"op": "toint", "t": t, "a": str(a), "to": to} for to in "SUZ"]
            for b in vs:
                out += [{"op": "cmp", "t": t, "a": str(a), "b": str(b)}, {"op": "exdiv", "t": t, "a": str(a), "b": str(b)}]
                if t != "S":
                    out.append({"op": "gcd", "t": t, "a": str(a), "b": str(b)})
                if t != "Q":
                    out += [{"op": "idiv", "t": t, "a": str(a), "b": str(b)}, {"op": "eea", "t": t, "a": str(a), "b": str(b)}]
    for n in range(1, 131):
        out.append({"op": "hp", "t": "S", "a": str(n)})
    for b in range(1, 63):
        out += [{"op": "hp", "t": "S", "a": str((1 << b) + d)} for d in (-1, 0, 1) if (1 << b) + d > 0]
    return out


def factors(r, n, top):
    """Factorisation keeps earlier results: sessions in different orders."""
    out = [[{"op": "begin"}] + [{"op": "fact", "n": i} for i in range(0, 130)],
           [{"op": "begin"}] + [{"op": "fact", "n": i} for i in range(130, -1, -1)],
           [{"op": "begin"}, {"op": "primes", "n": 120}]]
    for _ in range(n):
        s = [{"op": "begin"}]
        base = r.randint(2, 40)
        for _ in range(8):
            s.append({"op": "fact", "n": r.choice([r.randint(0, 200), base * r.randint(1, 60), r.randint(1, top), base * base])})
        out.append(s)
    return out


def texts(alphabet, n):
    out = [[]]
    last = [[]]
    for _ in range(n):
        last = [s + [c] for s in last for c in alphabet]
        out += last
    return [{"op": "parse", "t": t, "s": s} for s in out for t in "ZQ"]


def wild(r, n):
    out = []
    for _ in range(n):
        s = []

        def dec():
            s.extend(r.choice(["", "", "", "-", "-", "+", "--"]))
            s.extend(str(r.choice([0, 7, 10, 123, r.randint(0, 10 ** 25), integer(r)])))
            if r.random() < 0.5:
                s.append(".")
                s.extend(r.choice(["", "0", "00", "5", "250", "0625", "333", str(r.randint(0, 10 ** 12)), "0" * 12 + "1", "1" + "0" * 20]))
            if r.random() < 0.35:
                s.extend(r.choice("eE"))
                s.extend(r.choice(["", "+", "-"]))
                s.extend(str(r.choice([0, 1, 2, 5, 19, 40])))
        if r.random() < 0.1:
            s.append(" ")
        dec()
        if r.random() < 0.4:
            s.extend(r.choice(["/", "/", " / ", "//"]))
            dec()
        if r.random() < 0.15:
            s.insert(r.randint(0, len(s)), r.choice(list(" x.-/e0\t")))
        if not re.search(r"[eE][+-]?[0-9]{4}", "".join(s)):
            out.append({"op": "parse", "t": r.choice("ZQ"), "s": s})
    return out


def doubles(r):
    """An exact value of a double, from all binades."""
    k = r.random()
    m = r.choice([1, 3, (1 << 53) - 1, (1 << 52) + 1, r.getrandbits(53) or 1])
    e = r.randint(-1074, 971) if k < 0.3 else r.randint(-60, 20)
    if e == -1074 or r.random() < 0.1:
        e = -1074
    q = F(m) * (F(2) ** e)
    return q if r.random() < 0.5 else -q


def conversions(r, n):
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.2:
            out.append({"op": "print", "t": "Q", "a": str(frac(r))})
        elif k < 0.3:
            out.append({"op": "fromd", "t": "Q", "a": str(doubles(r))})
        elif k < 0.4:
            t = r.choice("US")
            out.append({"op": "fromint", "t": t, "a": str(s64(r) if t == "S" else r.choice([0, 1, (1 << 64) - 1, 1 << 63, (1 << 63) - 1, r.getrandbits(64)]))})
        else:
            q = frac(r)
            if k < 0.6:
                q = doubles(r)
            elif k < 0.75:
                q = doubles(r) + r.choice([1, -1]) * F(1, 2 ** r.choice([60, 200, 1080, 1200]))
            elif k < 0.8:
                q = r.choice([1, -1]) * (F(2) ** 1024 + r.choice([-1, 0, 1, F(2) ** 1023, -(F(2) ** 971), -(F(2) ** 970)]))
            out.append({"op": "dbl", "t": "Q", "a": str(q), "how": r.choice(["conv", "to"])})
    return out
