"""Values of the recognizing functionals at points inside, on the border of and outside the
solution sets (trace specification: FuncTrace)."""
from hlib import *

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("functionals/%d" % SHARD)
out = Out()
F = {"Tol": ip.Tol, "Uni": ip.Uni, "Uss": ip.Uss, "Cheb": ip.linear.ChebNorm}


def grid():
    return Fraction(R.randint(-24, 24), R.choice([1, 2, 4, 8]))


def rnd():
    return Fraction(R.uniform(-10, 10)) if R.random() < .7 else Fraction(round(R.uniform(-5, 5), 1))


def make(lo, hi):
    """Intervals from exact numbers, as ints now and then."""
    def c(t):
        return int(t) if t.denominator == 1 and R.random() < .3 else float(t)
    return Interval(c(lo), c(hi), sortQ=False)


def product(row, x):
    lo = sum(min(p * t, q * t) for (p, q), t in zip(row, x))
    return lo, sum(max(p * t, q * t) for (p, q), t in zip(row, x))


def system(n, m, exact):
    g = grid if exact else rnd
    rows = []
    for i in range(n):
        row = []
        for j in range(m):
            p, q = sorted((g(), g()))
            if R.random() < .2:
                q = p
            if R.random() < .1:
                p, q = Fraction(0), abs(q)
            row.append((p, q))
        rows.append(row)
    x = [g() if R.random() < .85 else Fraction(0) for _ in range(m)]
    b = []
    for row in rows:
        lo, hi = product(row, x)
        k = R.randrange(8)
        u = Fraction(R.randint(0, 8), 8) if exact else Fraction(R.uniform(0, 2))
        e = Fraction(1, 64)
        if k == 0:
            c = (lo, hi)                       # just inside the tolerable set
        elif k == 1:
            c = (lo - u, hi + u)
        elif k == 2:
            c = (lo - u, hi - e)               # just outside of it
        elif k == 3:
            c = (hi, hi + u)                   # touches: just inside the united set
        elif k == 4:
            c = (hi + e, hi + u + e)           # just outside
        elif k == 5:
            c = (lo - u, lo)
        elif k == 6:
            c = (lo - u - e, lo - e)
        else:
            c = tuple(sorted((g(), g())))
        b.append((min(c), max(c)))
    if R.random() < .4:                        # nearly all rows inside, so that the least one decides
        for i in range(n):
            if R.random() < .8:
                lo, hi = product(rows[i], x)
                b[i] = (lo - 3 - i, hi + 3 + i)
    return rows, b, x


for h in range(scale(260, 8000)):
    ev = []
    for _ in range(4):
        exact = R.random() < .7
        n, m = R.choice([1, 2, 3, 4, 4, 6, 9]), R.choice([1, 2, 3, 4, 4, 6])
        rows, b, x = system(n, m, exact)
        A = AI(np.array([[make(*e) for e in row] for row in rows], dtype=object).reshape(n, m))
        d = np.empty(n, dtype=object)
        d[:] = [make(*e) for e in b]
        B = AI(d)
        X = np.array([float(t) for t in x])
        if all(t.denominator == 1 for t in x) and R.random() < .5:
            X = np.array([int(t) for t in x])
        W = None if R.random() < .4 else np.array([R.choice([1, 2, .5, .25, 4.]) if exact else R.choice([1., .3, 7.]) for _ in range(n)])
        if W is not None and R.random() < .1:           # the formulas hold for these weights too
            W[R.randrange(n)] *= R.choice([0, -1])
        f = R.choice(list(F))
        a0, b0 = enc(A), enc(B)
        ev.append({"op": f, "f": f, "exact": exact, "A": a0, "b": b0, "x": [num(t) for t in X],
                   "w": [num(t) for t in (np.ones(n) if W is None else W)],
                   "value": obs(lambda: F[f].value(A, B, X, weight=W)), "cons": obs(lambda: F[f].constituent(A, B, X, weight=W)),
                   "A2": enc(A), "b2": enc(B)})
    out.run("functionals/%d/%d" % (SHARD, h), ev)
out.close()
