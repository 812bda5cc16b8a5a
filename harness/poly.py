"""Polynomials with exact coefficients: building, and evaluation by the library."""
from fractions import Fraction as Fr


def const(c, m):
    return {(0,) * m: Fr(c)}


def var(j, m):
    return {tuple(int(i == j) for i in range(m)): Fr(1)}


def add(p, q, k=1):
    r = dict(p)
    for e, c in q.items():
        r[e] = r.get(e, 0) + k * c
    return {e: c for e, c in r.items() if c}


def mul(p, q):
    r = {}
    for e, c in p.items():
        for f, d in q.items():
            g = tuple(a + b for a, b in zip(e, f))
            r[g] = r.get(g, 0) + c * d
    return {e: c for e, c in r.items() if c}


def diff(p, j):
    r = {}
    for e, c in p.items():
        if e[j]:
            f = tuple(k - (i == j) for i, k in enumerate(e))
            r[f] = r.get(f, 0) + c * e[j]
    return r


def ev(p, x):
    return sum((c * prod(t ** k for t, k in zip(x, e)) for e, c in p.items()), Fr(0))


def prod(it):
    r = Fr(1)
    for t in it:
        r *= t
    return r


def lib(p, X):
    """Value over X (a sequence of intervals) with the library's operations."""
    s = 0
    for e, c in sorted(p.items()):
        t = float(c)
        for x, k in zip(X, e):
            if k:
                t = t * x ** k
        s = s + t
    return s


def enc(p):
    from hlib import num
    return [{"c": num(c), "e": list(e)} for e, c in sorted(p.items())]
