"""Outer estimates of united solution sets (trace specification: OuterTrace).  Argument: "outer" for
Gauss, Gauss_Seidel, HBR, Rohn; "split" for PSS and PPS.  The systems are chosen so that exact
extreme points of the solution set are known; the specification checks each before using it."""
import math
from hlib import *
import solset, lp

MODE = sys.argv[2]
SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("outer/%s/%d" % (MODE, SHARD))
out = Out()
Fr = Fraction
L = ip.linear


def fl(x):
    """All data are numbers that are doubles."""
    return Fr(float(x))


def random_system(n, m):
    kind = R.choice(["plain", "dominant", "dominant", "unit", "thin", "zeros", "wide", "scaled", "point", "integer", "positive"])
    q = R.choice([1, 2, 4, 8])
    w = {"thin": 1, "point": 0, "wide": 8}.get(kind, R.choice([1, 2, 4]))
    rows = []
    for i in range(n):
        row = []
        for j in range(m):
            if kind == "unit":
                d = Fr(R.randint(0, 3), 4 * max(m, 2))
                c = Fr(int(i == j))
                row.append((fl(c - fl(d)), fl(c + fl(d))))
                continue
            c = Fr(R.randint(-8, 8), q)
            if kind == "zeros" and R.random() < .3:
                c = Fr(0)
            if kind in ("dominant", "thin", "scaled", "integer") and i == j:
                c = Fr(R.choice([-1, 1]) * R.randint(24, 60), q)
            d, e = Fr(R.randint(0, w), q), Fr(R.randint(0, w), q)
            if kind == "positive":
                d = e = Fr(R.randint(0, 1))
                c = Fr(R.randint(3, 6)) if i == j else d
            if kind == "integer":
                c, d, e = Fr(round(c)), Fr(round(d)), Fr(round(e))
            if R.random() < .25:
                d = e = Fr(0)
            row.append((c - d, c + e))
        if kind == "scaled":
            s = Fr(2) ** (R.randint(-30, 30) if MODE == "outer" else R.randint(-4, 4))
            row = [(s * p, s * t) for p, t in row]
        rows.append(row)
    b = []
    for i in range(n):
        c, d = Fr(R.randint(-20, 20), 2), Fr(R.randint(0, 8), 4)
        if R.random() < .2:
            d = Fr(0)
        if kind == "positive":
            c, d = Fr(R.randint(1, 12)), Fr(R.randint(0, 2), 2)
        s = max(abs(t) for p in rows[i] for t in p) if kind == "scaled" else 1
        s = Fr(2) ** int(np.log2(float(s))) if s else 1
        b.append((fl((c - d) * s), fl((c + d) * s)))
    if kind == "dominant" and n > 1 and n == m and R.random() < .4:
        # order of rows as elimination has to find it
        p = list(range(n))
        R.shuffle(p)
        rows, b = [rows[i] for i in p], [b[i] for i in p]
    return rows, b


def known_system(n):
    k = R.randint(0, 2)
    if k == 0:
        A, b = ip.Neumaier_system(max(n, 2), R.choice([2.5, 3., 3.5, 4, 6, 10.]), *R.choice([(), (-2, 3), (1, 2)]))
    elif k == 1:
        A, b = ip.Shary_system(max(n, 2), R.choice([None, max(n, 2) + 1, 5.]), *R.choice([(.23, .35), (.5, .9), (.4, .4)]))
    else:
        A, b = ip.Toft_system(max(n, 2), R.choice([0, .5, .1, .03125]), R.choice([0, 1, .5]))
    f = lambda x: (Fr(float(x.a)), Fr(float(x.b)))
    return [[f(x) for x in row] for row in A.data], [f(x) for x in b.data]


def big_system():
    """More unknowns: (rows, b, points of the set, whether they reach every face of its hull)."""
    m = R.choice([4, 4, 5, 6, 7])
    mono = R.random() < .6
    q = R.choice([1, 2, 4])
    rows = []
    for i in range(m):
        row = []
        for j in range(m):
            if R.random() < .3:
                row.append((Fr(0), Fr(0)))
            elif mono:
                c = -Fr(R.randint(0, 6), q)
                row.append((c - Fr(R.randint(0, 3), q), c))
            else:
                c = Fr(R.randint(-6, 6), q)
                row.append((c - Fr(R.randint(0, 3), q), c + Fr(R.randint(0, 3), q)))
        rows.append(row)
    mag = lambda t: max(abs(t[0]), abs(t[1]))
    for i in range(m):
        s = max(sum(mag(rows[i][j]) for j in range(m) if j != i), sum(mag(rows[j][i]) for j in range(m) if j != i))
        d = s * R.choice([Fr(5, 4), Fr(3, 2), 3]) + Fr(1, 4)
        rows[i][i] = (d, d + Fr(R.randint(0, 4), q))
    sign = R.choice([1, -1, 0])
    b = []
    for i in range(m):
        c, d = Fr(R.randint(0, 24), 2), Fr(R.randint(0, 8), 4)
        b.append(((c, c + d), (-c - d, -c), (-c, d))[0 if sign > 0 else 1 if sign < 0 else 2] if mono else (-c + d - 2, d + 1))
    b = [(min(t), max(t)) for t in b]
    pick = lambda M, k: [[t[k] for t in r] for r in M]
    pts = []
    if mono:                                 # inverse non-negative: the hull is known
        lo, hi = pick(rows, 0), pick(rows, 1)
        pts.append(lp.solve(hi if sign > 0 else lo, [t[0] for t in b]))
        pts.append(lp.solve(hi if sign < 0 else lo, [t[1] for t in b]))
    for _ in range(8):
        pts.append(lp.solve([[R.choice(t) for t in r] for r in rows], [R.choice(t) for t in b]))
    neg = lambda t: (-t[1], -t[0])
    for j in range(m):                       # other orthants
        if R.random() < .3:
            for r in rows:
                r[j] = neg(r[j])
            for x in pts:
                x[j] = -x[j]
        if R.random() < .3:
            rows[j], b[j] = [neg(t) for t in rows[j]], neg(b[j])
    if R.random() < .25:                     # more equations, which all points meet
        for _ in range(R.randint(1, 2)):
            row = [(Fr(R.randint(-4, 0)), Fr(R.randint(0, 4))) for _ in range(m)]
            v = [sum(t[0] * y for t, y in zip(row, x)) for x in pts]
            rows.append(row)
            b.append((Fr(math.floor(min(v))), Fr(math.ceil(max(v)))))
    elif R.random() < .3:
        p = list(range(m))
        R.shuffle(p)
        rows, b = [rows[i] for i in p], [b[i] for i in p]
    return rows, b, pts, mono


def build(rows, b, kaucher):
    mk = lambda p, q: Interval(float(p), float(q), **({"sortQ": False} if kaucher else {}))
    M = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, (p, q) in enumerate(r):
            M[i, j] = mk(p, q)
    d = np.empty(len(b), dtype=object)
    for i, (p, q) in enumerate(b):
        d[i] = mk(p, q)
    return AI(M), AI(d)


def box(m):
    X = []
    for j in range(m):
        c, d = Fr(R.randint(-8, 8), 2), Fr(R.choice([1, 2, 6, 20, 100]), 2)
        X.append((c - d, c + d))
    return X


def toiv(X):
    d = np.empty(len(X), dtype=object)
    for i, (p, q) in enumerate(X):
        d[i] = Interval(float(p), float(q))
    return AI(d)


def event(op, f, A, b, X, nu, pts, bounded, tight, args, limit=30, solve=True):
    before = [enc(x) for x in args]
    res = obs(f, limit=limit)
    return {"op": op, "A": enc(A), "b": enc(b), "X": [[num(p), num(q), "C"] for p, q in X] if X else [], "nu": nu,
            "W": [[num(t) for t in p] for p in pts], "bounded": bounded, "tight": tight, "res": res, "solve": solve,
            "kept": [before, [enc(x) for x in args]]}


def dominant(rows):
    n = len(rows)
    mig = lambda p: max(p[0], -p[1], 0)
    mag = lambda p: max(abs(p[0]), abs(p[1]))
    return len(rows[0]) == n and all(mig(rows[i][i]) * Fr(9, 10) > max(sum(mag(rows[i][j]) for j in range(n) if j != i),
                                                                 sum(mag(rows[j][i]) for j in range(n) if j != i)) for i in range(n))


for h in range(scale({"outer": 130, "split": 150}[MODE], {"outer": 1500, "split": 1800}[MODE])):
    n = R.choice([1, 2, 2, 3, 3])
    rect = R.random() < .3
    if R.random() < .12:
        rows, b = known_system(n)
    else:
        rows, b = random_system(n + rect * R.randint(1, 2), n)
    big = R.random() < .2
    if big:
        rows, b, pts, bounded = big_system()
        hull = True
    m, n = len(rows[0]), len(rows)
    if not big:
        pts, bounded, hull = solset.united(rows, b)
    bounded = bounded and hull is not None
    A, B = build(rows, b, R.random() < .15)
    out.pending("outer/%s/%d/%d" % (MODE, SHARD, h))
    ev = []
    if MODE == "outer":
        if n == m:
            ev.append(event("Gauss", lambda: L.Gauss(A, B), A, B, None, 0, pts, bounded, False, [A, B]))
            ev.append(event("HBR", lambda: L.HBR(A, B), A, B, None, 0, pts, bounded, False, [A, B]))
            for k in range(2):
                X = None if k == 0 else box(m)
                kw = {} if X is None else {"x0": toiv(X)}
                Z = X or [(Fr(-1000), Fr(1000))] * m
                C = R.choice([None, None, np.eye(m), "near"])
                if isinstance(C, str):
                    C = np.array([[float(i == j) + R.choice([0, .125, -.125]) for j in range(m)] for i in range(m)])
                if C is not None:
                    kw["C"] = C
                if R.random() < .4:
                    kw["maxiter"] = R.choice([0, 1, 2, 10])
                if R.random() < .2:
                    kw["tol"] = .01
                P, bd, _ = (pts, False, 0) if big else solset.united(rows, b, Z)
                ev.append(event("Gauss_Seidel", lambda: L.Gauss_Seidel(A, B, **kw), A, B, Z, 0, P, bd, False, [A, B, kw.get("x0"), kw.get("C")], solve=C is None or bool((C == np.eye(m)).all())))
        kw = R.choice([{}, {}, {"maxiter": R.choice([0, 1, 5, 50])}, {"tol": 1e-6}])
        if kw.get("maxiter", 2000) == 2000:
            ev.append(event("Rohn", lambda: L.Rohn(A, B, **kw), A, B, None, 0, pts, bounded, False, [A, B]))
        else:
            # may refuse to answer: no convergence
            e = event("Rohn", lambda: L.Rohn(A, B, **kw), A, B, None, 0, pts, bounded, False, [A, B])
            if e["res"]["k"] != "err":
                ev.append(e)
    else:
        for k in range(2):
            it = R.choice([None, 0, 1, 2, 3, 5, 10, 40])
            if m > 5 and R.random() < .5:
                it = R.choice([0, 1, 2, 3, 5])
            nu = R.choice([None, None, R.randrange(m)])
            kw = {} if nu is None else {"nu": nu}
            if it is not None:
                kw["maxiter"] = it
            if R.random() < .15:
                kw["tol"] = 1e-6
            tight = it is None and kw.get("tol") is None and (m <= 2 or dominant(rows))
            if hull is None:
                continue
            if bounded or it is not None:
                Z = None
                kx = dict(kw)
                P, bd = pts, bounded
                if R.random() < .25 and not big:
                    Z = box(m)
                    if bounded and R.random() < .6:       # around the whole set, with ends at zero where possible
                        for j in range(m):
                            lo, hi = min(p[j] for p in pts), max(p[j] for p in pts)
                            Z[j] = (min(Fr(0), Fr(math.floor(lo * 4), 4)), max(Fr(0), Fr(math.ceil(hi * 4), 4) + R.choice([0, 1])))
                    kx["x0"] = toiv(Z)
                    P, bd, H = solset.united(rows, b, Z)
                    if not (bounded and all(Z[j][0] <= q <= Z[j][1] for p in pts for j, q in enumerate(p))):
                        tight = False
                    if H is None or any(q < Z[j][0] or q > Z[j][1] for p in pts for j, q in enumerate(p)) and R.random() < .7:
                        continue
                e = event("PSS", lambda: L.PSS(A, B, **kx), A, B, Z, 0 if nu is None else nu + 1, P, bd, tight and bd, [A, B, kx.get("x0")], 8 if it is None else 30)
                if it is not None or e["res"].get("t") != "Timeout":
                    ev.append(e)
            if n == m and bounded:
                ok, _ = call(lambda: [L.HBR(A, B), L.Gauss(A, B)])
                if ok:
                    e = event("PPS", lambda: L.PPS(A, B, **kw), A, B, None, 0 if nu is None else nu + 1, pts, bounded, tight, [A, B], 8 if it is None else 30)
                    if it is not None or e["res"].get("t") != "Timeout":
                        ev.append(e)
    if ev:
        out.run("outer/%s/%d/%d" % (MODE, SHARD, h), ev)
out.close()
