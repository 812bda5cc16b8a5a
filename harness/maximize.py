"""Maximization of the recognizing functionals, with and without linear constraints whose objects
are reused for other systems (trace specification: MaxTrace).  The optimum's certificate is an
exact dual solution of the linear program; MaxTrace checks it before believing it."""
from hlib import *
from cert import certificate

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("maximize/%d" % SHARD)
out = Out()
F = {"Tol": ip.Tol.maximize, "Uni": ip.Uni.maximize, "Uss": ip.Uss.maximize, "Cheb": ip.linear.ChebNorm.minimize}
Fr = Fraction


def grid(k=24):
    return Fr(R.randint(-k, k), R.choice([1, 2, 4]))


def system(point):
    n, m = R.choice([1, 2, 3, 4, 5, 5, 8]), R.choice([1, 2, 3, 3, 5])
    wide = R.choice([0, 1, 4])
    rows = []
    for i in range(n):
        row = []
        for j in range(m):
            c = grid()
            d = Fr(0) if point else Fr(R.randint(0, wide), R.choice([1, 2, 4]))
            if R.random() < .1:
                c = Fr(0)
            row.append((c - d, c + d))
        rows.append(row)
    b = []
    for i in range(n):
        c, d = grid(), Fr(R.randint(0, 16), R.choice([1, 2, 4]))
        b.append((c - d, c + d))
    return rows, b


def build(rows, b):
    A = AI(np.array([[Interval(float(p), float(q)) for p, q in row] for row in rows], dtype=object).reshape(len(rows), len(rows[0])))
    d = np.empty(len(b), dtype=object)
    d[:] = [Interval(float(p), float(q)) for p, q in b]
    return A, AI(d)


def constraint(m):
    """Limits met by the point the constraint is built around."""
    q = R.randint(1, 3)
    C = [[R.choice([0, 0, 1, -1, 2, .5]) for _ in range(m)] for _ in range(q)]
    if R.random() < .4:
        C = [[float(i == j) for j in range(m)] for i in range(m)]
        q = m
    x = [R.randint(-4, 4) for _ in range(m)]
    s = [sum(c * t for c, t in zip(row, x)) for row in C]
    inf = float("inf")
    ub = [t + R.choice([0, 1, 3, inf]) for t in s]
    lb = [t - R.choice([0, 1, 3, inf]) for t in s]
    return C, lb, ub


for h in range(scale(70, 1500)):
    ev = []
    con = None
    shared = R.random() < .5
    for k in range(3):
        point = R.random() < .3
        rows, b = system(point)
        n, m = len(rows), len(rows[0])
        if con is not None and len(con[1][0]) != m:
            con = None
        if con is None and (shared or R.random() < .3):
            C, lb, ub = constraint(m)
            which = R.choice(["lb", "ub", "both", "both", "none"])
            if which in ("ub", "none"):
                lb = [-float("inf")] * len(C)
            if which in ("lb", "none"):
                ub = [float("inf")] * len(C)
            kw = {}
            if which in ("lb", "both"):
                kw["lb"] = np.array(lb)
            if which in ("ub", "both"):
                kw["ub"] = np.array(ub)
            ok, L = call(lambda: ip.LinearConstraint(np.array(C) if R.random() < .7 else [list(r) for r in C], **kw))
            con = (L, C, lb, ub, kw)
            if not ok:
                ev.append({"op": "LinearConstraint", "f": "Tol", "A": {}, "res": L})
                con = None
                break
        A, B = build(rows, b)
        f = R.choice(["Tol", "Uni", "Uss", "Cheb"] if point else ["Tol", "Tol", "Uni", "Uss", "Cheb"])
        W = None
        w = [Fr(1)] * n
        if R.random() < .5:
            w = [Fr(R.choice([1, 2, 4]), 2) for _ in range(n)]
            W = np.array([float(t) for t in w])
            if R.random() < .3:
                w = [w[0]] * n
                W = float(w[0])
        x0 = np.array([R.randint(-6, 6) * 1. for _ in range(m)]) if R.random() < .4 else None
        opt = {}
        full = R.random() < .8
        if not full:
            opt = R.choice([{"maxiter": R.randint(1, 30)}, {"tolx": 1e-3}, {"tolf": 1e-2, "tolg": 1e-3}, {"h0": .1, "nsims": 5}, {"alpha": 3., "nh": 2}])
        use = con is not None and (shared or R.random() < .5)
        C, lb, ub = (con[1], con[2], con[3]) if use else ([], [], [])
        P, Q = [], []
        concave = f in ("Tol", "Cheb") or point
        if full and concave:
            # -ChebNorm is Tol with right-hand sides of negative radius
            P, Q = certificate(rows, [t[::-1] for t in b] if f == "Cheb" else b, w, C, lb, ub)
            if P is None:
                continue
        kw = dict(opt)
        if W is not None:
            kw["weight"] = W
        if x0 is not None:
            kw["x0"] = x0
        if use:
            kw["linear_constraint"] = con[0]
        state = lambda: [enc(A), enc(B), enc(x0), enc(W), [enc(con[0].C), enc(con[0].b), enc(con[4].get("lb")), enc(con[4].get("ub"))] if use else 0]
        before = state()
        res = obs(lambda: F[f](A, B, **kw), limit=60)
        ev.append({"op": f, "f": f, "A": before[0], "b": before[1], "w": [num(t) for t in w],
                   "C": [[num(t) for t in r] for r in C], "lb": [num(t) for t in lb], "ub": [num(t) for t in ub],
                   "x0": [] if x0 is None else [num(t) for t in x0], "maxiter": opt.get("maxiter", 2000), "full": full and concave,
                   "res": res, "P": P, "Q": Q, "kept": [before, state()]})
    out.run("maximize/%d/%d" % (SHARD, h), ev)

# one iteration from a point of smoothness, with a short first step
for h in range(scale(60, 1200)):
    ev = []
    for k in range(4):
        rows, b = system(R.random() < .15)
        n, m = len(rows), len(rows[0])
        A, B = build(rows, b)
        f = R.choice(["Tol", "Uni", "Uss", "Cheb"])
        w = [Fr(R.choice([1, 1, 2, 8, 32]), R.choice([1, 4, 16])) for _ in range(n)] if R.random() < .8 else [Fr(1)] * n
        x0 = [R.choice([-1, 1]) * (Fr(R.randint(1, 40), 8) + Fr(R.randint(1, 63), 512)) for _ in range(m)]
        step = Fr(1, 2 ** 16)
        W = np.array([float(t) for t in w])
        X0 = np.array([float(t) for t in x0])
        res = obs(lambda: F[f](A, B, weight=W, x0=X0, maxiter=1, h0=float(step)), limit=60)
        ev.append({"op": "step", "f": f, "A": enc(A), "b": enc(B), "w": [num(t) for t in w], "x0": [num(t) for t in x0], "h": num(step), "res": res})
    out.run("step/%d/%d" % (SHARD, h), ev)
out.close()
