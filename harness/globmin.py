"""Global minimization of polynomials with certified minima (trace specification: MinTrace)."""
from hlib import *
import itertools
import poly

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("globmin/%d" % SHARD)
out = Out()
Fr = Fraction


def problem(m, fine):
    """f = v + sum c_k p_k^2 g_k with every p_k zero at the minimizer, or g_k zero there."""
    X = []
    M = []
    for j in range(m):
        lo = Fr(R.randint(-12, 8), 4)
        hi = lo + Fr(R.randint(1, 16), 4)
        if fine:                                                       # ends with many digits
            lo, hi = lo + Fr(R.randrange(1 << 28), 1 << 30), hi + Fr(R.randrange(1 << 28), 1 << 30)
        X.append((lo, hi))
        M.append(R.choice([lo, hi, (lo + hi) / 2, lo + (hi - lo) * Fr(R.randint(0, 8), 8), lo + (hi - lo) * Fr(R.randint(0, 1024), 1024)]))
    d = [poly.add(poly.var(j, m), poly.const(-M[j], m)) for j in range(m)]
    unit = poly.const(1, m)
    sq = [(Fr(R.choice([1, 2, 1, 4]), 2), d[j], unit) for j in range(m)]
    kind = R.choice(["convex", "convex", "convex", "mixed", "edge", "wells", "convex" if fine else "quartic"])
    if kind == "mixed":
        p = {}
        for j in range(m):
            p = poly.add(p, d[j], Fr(R.randint(-4, 4), 2))
        sq.append((Fr(1, 2), p, unit))
    elif kind == "edge":
        # slope at a border: (x - lo) or (hi - x) is non-negative
        j = R.randrange(m)
        if M[j] == X[j][0]:
            sq[j] = (sq[j][0], unit, d[j])
        elif M[j] == X[j][1]:
            sq[j] = (sq[j][0], unit, {e: -c for e, c in d[j].items()})
    elif kind == "wells":
        j = R.randrange(m)
        w = poly.add(poly.var(j, m), poly.const(-Fr(R.randint(-12, 12), 4), m))
        sq[j] = (Fr(1), poly.mul(d[j], w), unit)
    elif kind == "quartic":
        j = R.randrange(m)
        sq.append((Fr(1), poly.mul(d[j], d[j]), unit))
    v = Fr(R.randint(-20, 20), 4)
    f = poly.const(v, m) if v else {}
    for c, p, g in sq:
        f = poly.add(f, poly.mul(poly.mul(p, p), g), c)
    return X, M, v, f, sq


for h in range(scale(160, 2500)):
    m = R.choice([1, 1, 2, 2, 3, 1, 1, 2, 2, 3, 4, 5])
    fine = R.random() < .2
    X, M, v, f, sq = problem(m, fine)
    form = R.choice(["squares", "squares", "squares", "squares", "squares" if fine else "terms", "nested"])
    # a term that is zero at every point, and very wide over boxes away from the minimizer: long lists of boxes
    loose = Fr(R.choice([40, 200, 1000])) if m < 3 and R.random() < .08 else 0
    tol = R.choice([1e-12, 1e-3, 1e-2, .1])
    full = form == "squares" and m < 3
    maxiter = 2000 if full else R.choice([0, 1, 2, 5, 20, 60])
    if full and tol < 1e-3:
        full = m == 1
        maxiter = 2000 if full else 40
    if loose:
        full, maxiter, tol = False, R.choice([300, 1200, 2500]), 1e-12
    log = []
    scale_ = lambda c: float(c)

    def func(x):
        y = value([x[j] for j in range(m)])
        if len(log) < 60:
            log.append({"op": "func", "x": enc(x), "lo": num(y.a)})
        return y

    def value(xs):
        if loose:
            far = sum((xs[j] - float(M[j])) ** 2 for j in range(m))
            return tight(xs) + float(loose) * far * sum(t - t for t in xs)
        return tight(xs)

    def tight(xs):
        if form == "terms":
            s = poly.lib(f, xs)
            return s if isinstance(s, (CA, KA)) else Interval(float(s), float(s))
        s = float(v)
        for c, p, g in sq:
            t = poly.lib(p, xs)
            t = t * t if form == "nested" else t ** 2
            if g != poly.const(1, m):
                t = t * poly.lib(g, xs)
            s = s + float(c) * t
        return s
    deg = max(sum(e) for e in f) if f else 0
    pts = [Fr(k) for k in range(-(deg // 2) - 1, deg - deg // 2 + 1)]
    grid = list(itertools.product(pts, repeat=m)) if (deg + 2) ** m <= 400 else [[Fr(R.randint(-9, 9)) for _ in range(m)] for _ in range(60)]
    if full:
        # quick convergence only where the natural extension is exact enough
        full = form == "squares" and all(len([e for e in p if any(e)]) <= 1 for c, p, g in sq) and not any(sum(max(e) for e in p) > 1 for c, p, g in sq)
        full = full and len(sq) <= m
    d = np.empty(m, dtype=object)
    d[:] = [Interval(float(p), float(t)) for p, t in X]
    x0 = AI(d)
    ident = "globmin/%d/%d" % (SHARD, h)
    out.pending(ident)
    before = enc(x0)
    kw = {"tol": tol, "maxiter": maxiter}
    if maxiter == 2000 and tol == 1e-12:
        kw = {}
    ok, res = call(lambda: ip.nonlinear.globopt(func, x0, **kw), limit=25)
    if not ok and res["t"] == "Timeout":
        continue
    ev = [{"op": "start", "f": poly.enc(f), "X": [[num(p), num(t), "C"] for p, t in X], "M": [num(t) for t in M], "v": num(v),
           "sq": [{"c": num(c), "p": poly.enc(p), "g": poly.enc(g)} for c, p, g in sq], "grid": [[num(t) for t in g] for g in grid],
           "full": full, "tol": num(tol)}]
    # all calls are on record, and few enough for the cells between them to be visited
    ev[0]["all"] = m < 3 and len(log) < (60 if m == 1 else 30)
    ev += log
    ev.append({"op": "stop", "res": enc(res) if ok else res, "kept": [before, enc(x0)]})
    out.run(ident, ev)
out.close()
