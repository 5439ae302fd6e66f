"""Seeded generators of values in wire form."""


def rat(r, size=1):
    """A rational as canonical string; size 0: tiny, 1: small, 2: mixed with huge ones."""
    from fractions import Fraction
    k = r.random()
    if size == 0 or k < 0.45:
        return str(r.choice([0, 1, 1, -1, -1, 2, -2, 3]))
    if k < 0.7:
        return str(r.randint(-12, 12))
    if k < 0.9 or size == 1:
        return str(Fraction(r.randint(-20, 20), r.randint(1, 9)))
    b = r.choice([31, 32, 33, 63, 64, 65, 80, 130])
    n = (1 << b) + r.randint(-3, 3)
    if r.random() < 0.5:
        return str(Fraction(r.choice([1, -1]) * n, r.choice([1, 1, 3, (1 << 64) - 1, 10 ** 20 + 39])))
    return str(r.choice([1, -1]) * n)


def nzrat(r, size=1):
    while True:
        x = rat(r, size)
        if x != "0":
            return x


def integer(r, size=1):
    from fractions import Fraction
    while True:
        x = rat(r, size)
        if "/" not in x:
            return x


def mono(r, nv, maxdeg=3, maxvars=None):
    m = [0] * nv
    d = r.choice([0, 1, 1, 2, 2, 3, maxdeg])
    d = min(d, maxdeg)
    pool = list(range(nv))
    if maxvars:
        pool = r.sample(pool, min(maxvars, nv))
    for _ in range(d):
        m[r.choice(pool)] += 1
    return m


def terms(r, nv, n, maxdeg=3, size=1, integral=False, dup=False):
    """A list of terms; distinct monomials and non-zero coefficients unless dup."""
    out, seen = [], set()
    for _ in range(n):
        m = mono(r, nv, maxdeg)
        if tuple(m) in seen and not dup:
            continue
        seen.add(tuple(m))
        c = integer(r, size) if integral else rat(r, size)
        if c == "0" and not dup:
            c = "1"
        out.append([m, c])
    r.shuffle(out)
    return out
