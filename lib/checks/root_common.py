from fractions import Fraction

from gens import nzrat, rat, terms

DRIVERS = ["d_root"]


def mul(a, b):
    out = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def trim(p):
    while p and p[-1] == 0:
        p.pop()
    return p


def small(r):
    return Fraction(r.choice([0, 0, 1, -1, 1, -1, 2, -2, 3, "1/2", "-1/2", "2/3", "-3/2", 5, -7]))


def product(r, deg=7):
    """A product of factors, some repeated, with its rational roots."""
    p, roots = [Fraction(1)], []
    pool = [small(r) for _ in range(r.randint(1, 3))]
    for _ in range(r.randint(1, 5)):
        if r.random() < 0.65:
            x = r.choice(pool)
            f = [-x, Fraction(1)]
            roots.append(x)
        else:
            f = [Fraction(r.choice(c)) for c in r.choice([([-2, -3, 2, 5, 1], [0], [1, 2]), ([1, 3], [1, -1, 2], [1, 2]), ([-1, 1, 2, 3], [0, 1, -1], [0, 1], [1, 2])])]
        k = r.choice([1, 1, 1, 2, 2, 3])
        for _ in range(k):
            if len(p) + len(f) - 2 <= deg:
                p = mul(p, f)
    c = Fraction(r.choice([1, 1, 1, -1, 2, -2, "1/2", "-2/3", 6, "7/5"]))
    return [x * c for x in p], roots


def sparse(r):
    n = r.randint(1, 9)
    p = [Fraction(rat(r, 2)) if r.random() < 0.4 else Fraction(0) for _ in range(n)]
    if r.random() < 0.5:
        p[r.randrange(n)] = Fraction(r.choice([1, -1]) * 10 ** r.randint(3, 30), 10 ** r.choice([0, 0, 0, 20, 33]))
    p.append(Fraction(r.choice([1, -1, 1, -1, 2, "1/3", "-1/1000000", 10 ** 9, 10 ** 25])))
    return p, []


def near(r, roots):
    x = Fraction(r.choice(roots)) if roots and r.random() < 0.6 else small(r)
    return x + Fraction(r.choice([0, 0, 0, "1/7", "-1/7", "1/1000", "-1/1000", 1, -1, 2, -3]))


def ivl(r, roots, point=True):
    a, b = sorted((near(r, roots), near(r, roots)))
    if a == b and not point:
        b = a + 1
    if a == b:
        return [str(a), "W", str(b), "W"]
    return [str(a), r.choice("SW"), str(b), r.choice("SW")]


def wire(p):
    return [str(x) for x in trim(list(p))]
