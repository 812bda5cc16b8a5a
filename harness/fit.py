"""Histories of regression models: constructions, fits (valid and not), predictions
(trace specification: FitTrace)."""
from hlib import *
from cert import point_certificate
import pandas as pd

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("fit/%d" % SHARD)
out = Out()
Fr = Fraction
BASES = ["monom", "chebyshev", "hermite", "laguerre", "legendre"]


def basis(b, k):
    """Coefficients, the constant first."""
    p0, p1 = [Fr(1)], {"hermite": [Fr(0), Fr(2)], "laguerre": [Fr(1), Fr(-1)]}.get(b, [Fr(0), Fr(1)])
    for n in range(1, k):
        x = [Fr(0)] + p1
        q = p0 + [Fr(0)] * (len(x) - len(p0))
        p = p1 + [Fr(0)]
        N = Fr(n)
        if b == "monom":
            nxt = x
        elif b == "chebyshev":
            nxt = [2 * s - t for s, t in zip(x, q)]
        elif b == "hermite":
            nxt = [2 * s - 2 * N * t for s, t in zip(x, q)]
        elif b == "legendre":
            nxt = [((2 * N + 1) * s - N * t) / (N + 1) for s, t in zip(x, q)]
        else:
            nxt = [((2 * N + 1) * u - s - N * t) / (N + 1) for s, t, u in zip(x, q, p)]
        p0, p1 = p1, nxt
    return p1 if k else p0


def at(c, t):
    v = Fr(0)
    for k in reversed(c):
        v = v * t + k
    return v


def AIof(rows):
    return AI(np.array([[Interval(float(p), float(q)) for p, q in row] for row in rows], dtype=object).reshape(len(rows), len(rows[0])))


def vec(b):
    d = np.empty(len(b), dtype=object)
    d[:] = [Interval(float(p), float(q)) for p, q in b]
    return AI(d)


def enc2(x):
    if isinstance(x, pd.DataFrame):
        return {"k": "seq", "v": [{"k": "str", "v": ",".join(map(str, x.columns))}, enc(np.array(x.values, dtype=object))]}
    if isinstance(x, pd.Series):
        return enc(np.array(x.values, dtype=object))
    return enc(x)


def targets(n):
    b = []
    for i in range(n):
        c, d = Fr(R.randint(-24, 24), 4), Fr(R.randint(0, 12), 4)
        b.append((c - d, c + d))
    return b


def rows_of(n, m, point, ispae):
    rows = []
    for i in range(n):
        row = []
        for j in range(m):
            c = Fr(R.randint(-16, 16), 8) if ispae else Fr(R.randint(-16, 16), R.choice([1, 2, 4]))
            d = Fr(0) if point or R.random() < .2 else Fr(R.randint(0, 8), 16 if ispae else 4)
            row.append((c - d, c + d))
        rows.append(row)
    if R.random() < .15:
        # middle matrix without full rank: equal columns, or none at all
        zero = m == 1 or R.random() < .4
        for row in rows:
            d = (row[-1][1] - row[-1][0]) / 2
            c = 0 if zero else (row[0][0] + row[0][1]) / 2
            row[-1] = (c - d, c + d)
    return rows


def weights(n):
    """-> exact values, the argument"""
    t = R.random()
    if t < .35:
        return [Fr(1)] * n, None
    if t < .6:
        w = [R.choice([1, 2, 3, 5]) for _ in range(n)]
        return [Fr(v) for v in w], np.array(w)
    if t < .7:
        w = [R.choice([1, 2, 3]) for _ in range(n)]
        return [Fr(v) for v in w], [float(v) for v in w]
    w = [Fr(R.choice([1, 1, 2, 3, 4]), 2) for _ in range(n)]
    return w, np.array([float(v) for v in w])


class Model:
    def __init__(self, k, ev):
        self.k = k
        self.cls = R.choice(["WILS", "ISPAE"])
        self.alpha, self.beta = R.choice([(0, 1), (0, 1), (Fr(1, 4), 1), (Fr(1, 2), 2), (Fr(1, 2), 1), (0, Fr(1, 2))])
        self.basis = R.choice(BASES)
        a = dict(alpha=float(self.alpha), beta=float(self.beta)) if (self.alpha, self.beta) != (0, 1) or R.random() < .5 else {}
        if self.cls == "ISPAE":
            if self.basis != "monom" or R.random() < .5:
                a["basis"] = self.basis
            self.make = lambda: ip.ISPAE(**a)
        else:
            self.make = lambda: ip.WILS(**a)
        ok, self.obj = call(self.make)
        self.m = None
        self.fits = []
        ev.append({"op": "new", "m": k, "cls": self.cls, "basis": self.basis, "alpha": num(self.alpha), "beta": num(self.beta),
                   "res": {"k": "str", "v": "ok"} if ok else self.obj})
        self.ok = ok


def constraint(m):
    q = R.randint(1, 3)
    C = [[R.choice([0, 0, 1, -1, 2, .5]) for _ in range(m)] for _ in range(q)]
    x = [R.randint(-4, 4) for _ in range(m)]
    s = [sum(c * t for c, t in zip(row, x)) for row in C]
    inf = float("inf")
    ub = [t + R.choice([0, 1, 3, inf]) for t in s]
    lb = [t - R.choice([0, 1, 3, inf]) for t in s]
    return C, lb, ub


def fit(mo, key):
    """Arguments of a fit: a function that performs it, and the event without its result."""
    ispae = mo.cls == "ISPAE"
    point = R.random() < .3
    n, m = R.choice([2, 3, 4, 5, 5, 8]), R.choice([1, 2] if ispae else [1, 2, 3, 3, 4])
    rows, b = rows_of(n, m, point, ispae), targets(n)
    bias = ispae and R.random() < .7
    order = [R.choice([1, 2, 2, 3, 4 if m == 1 else 2]) for _ in range(m)] if ispae else []
    if ispae and sum(order) > 5:
        order[0] = 1
    asint = ispae and R.random() < .4
    if asint:
        order = [order[0]] * m
    dim = sum(order) + bias if ispae else m
    f = R.choice(["Tol", "Tol", "Uni"] if ispae else ["Tol", "Tol", "Uni", "Uss"])
    norm = R.choice(["inf", "inf", "l1"])
    w, W = weights(n)
    sm = []
    for t in w:
        sm.append(mo.beta * (t * (1 - mo.alpha) + (mo.alpha * sm[-1] if sm else 0)))
    x0 = np.array([R.randint(-3, 3) * 1. for _ in range(dim)]) if R.random() < .3 else None
    C, lb, ub = [], [], []
    con = None
    if not ispae and R.random() < .3:
        C, lb, ub = constraint(m)
        L = ip.LinearConstraint(np.array(C), lb=np.array(lb), ub=np.array(ub))
        con = L
    opt = {} if R.random() < .8 else R.choice([{"maxiter": R.randint(1, 20)}, {"tolx": 1e-3}, {"tolf": 1e-2}, {"h0": .1, "nsims": 5}])
    full = not opt
    P, Q = [], []
    features = [[basis(mo.basis, d) for d in range(1, o + 1)] for o in order]
    if full and (f == "Tol" or point):
        if ispae:
            def feature(z):
                return ([Fr(1)] if bias else []) + [at(c, t) for cs, t in zip(features, z) for c in cs]

            def worst(box, x, s):
                z, k = [], int(bias)
                for cs, (lo, hi) in zip(features, box):
                    p = [Fr(0)] * (len(cs) + 1)
                    for c in cs:
                        for j, v in enumerate(c):
                            p[j] += x[k] * v
                        k += 1
                    cand = {lo, hi}
                    if lo < hi and len(p) > 2:
                        d = [float(j * v) for j, v in enumerate(p)][1:]
                        for r in np.polynomial.Polynomial(d).roots():
                            t = Fr(round(r.real * 2 ** 16), 2 ** 16)
                            if lo < t < hi:
                                cand.add(t)
                    z.append(max(sorted(cand), key=lambda t: s * at(p, t)))
                return z
            tol = Fr(1, 10 ** 8)
        else:
            feature = lambda z: list(z)
            worst = lambda box, x, s: [hi if s * v > 0 else lo for v, (lo, hi) in zip(x, box)]
            tol = 0
        P, Q, val, xs = point_certificate(rows, b, sm, feature, worst, norm, C, lb, ub, tol)
        if P is None:
            return None
    form = R.random()
    names = None
    if ispae and form < .4:
        names = ["c%d" % j for j in range(m)]
        X = pd.DataFrame({names[j]: [Interval(float(p), float(q)) for p, q in (row[j] for row in rows)] for j in range(m)})
        if R.random() < .3:
            X.index = R.sample(range(50), n)
    elif point and form < .7:
        X = np.array([[float(p) for p, q in row] for row in rows])
    else:
        X = AIof(rows)
    y = vec(b)
    if ispae and R.random() < .2:
        y = pd.Series(list(y.data), index=R.sample(range(50), n) if R.random() < .3 else None)
    kw = dict(opt)
    if W is not None:
        kw["weight"] = W
    if x0 is not None:
        kw["x0"] = x0
    if f != "Tol" or R.random() < .5:
        kw["objective"] = f
    if norm != "inf" or R.random() < .5:
        kw["norm"] = norm
    if con is not None:
        kw["constraint"] = con
    if ispae:
        kw["order"] = order[0] if asint else list(order)
        if not bias or R.random() < .5:
            kw["bias"] = bias
    e = {"op": "fit", "m": mo.k, "key": key, "A": enc(AIof(rows)), "b": enc(vec(b)), "w": [num(t) for t in w], "f": f, "norm": norm,
         "order": order, "bias": bool(bias), "x0": [] if x0 is None else [num(t) for t in x0], "maxiter": opt.get("maxiter", 2000),
         "full": full and (f == "Tol" or point), "C": [[num(t) for t in r] for r in C], "lb": [num(t) for t in lb], "ub": [num(t) for t in ub], "P": P, "Q": Q}
    state = lambda: [enc2(X), enc2(y), enc(x0), enc(W), enc(kw.get("order")), [enc(con.C), enc(con.b), enc(con.mu)] if con is not None else 0]

    def do():
        before = state()
        r = obs(lambda: (mo.obj.fit(X, y, **kw), estimator(mo.obj))[1], limit=90)
        e2 = dict(e, res=r, kept=[before, state()], retry=[])
        if r["k"] == "seq" and full and opt == {} and r["v"][4] == {"k": "num", "v": "1"} and r["v"][2] == {"k": "num", "v": "29"}:
            # thirty iterations without any progress: once more from there with more patience
            o2 = mo.make()
            r2 = obs(lambda: (o2.fit(X, y, **dict(kw, x0=np.array(mo.obj.estimator["xr"]), nsims=400)), estimator(o2))[1], limit=90)
            if r2["k"] == "seq":
                e2["retry"] = [r2["v"][1]["v"]]
        return e2
    return do, dict(m=m, names=names, point=point, x=(X, y, kw))


def estimator(o):
    e = o.estimator
    return [e["xr"], e["fr"], e["nit"], e["ncalls"], e["ccode"]]


def bad_fit(mo, last):
    X, y, kw = last["x"]
    kw = dict(kw)
    kw["maxiter"] = 3
    kind = R.choice(["rhs", "objective", "x0", "order"] if mo.cls == "ISPAE" else ["rhs", "objective", "x0"])
    if kind == "rhs":
        y = vec(targets(len(y) + R.choice([1, 2])))
        kw.pop("weight", None)
    elif kind == "objective":
        kw["objective"] = R.choice(["tol", "Chebyshev", "TolUni"])
    elif kind == "x0":
        kw["x0"] = np.ones(R.choice([17, 19]))
    else:
        kw["order"] = [1] * 4
        kw.pop("x0", None)
    r = obs(lambda: (mo.obj.fit(X, y, **kw), estimator(mo.obj))[1], limit=60)
    return {"op": "badfit", "m": mo.k, "what": kind, "res": r}


def predict(mo, last):
    n = R.randint(1, 3)
    m = last["m"]
    point = R.random() < .4
    rows = rows_of(n, m, point, mo.cls == "ISPAE")
    names = last["names"]
    t = R.random()
    if names is not None:
        cols = {c: [Interval(float(p), float(q)) for p, q in (row[j] for row in rows)] for j, c in enumerate(names)}
        if point:
            cols = {c: [float(p) for p, q in (row[j] for row in rows)] for j, c in enumerate(names)}
        if R.random() < .3:
            cols = dict(reversed(list(cols.items())))
        X = pd.DataFrame(cols)
        if R.random() < .3:
            X.index = R.sample(range(50), n)
    elif point and t < .7:
        X = np.array([[float(p) for p, q in row] for row in rows])
    else:
        X = AIof(rows)
    before = enc2(X)

    def do():
        v = mo.obj.predict(X)
        return np.asarray(v.values) if isinstance(v, pd.Series) else v
    return {"op": "predict", "m": mo.k, "A": enc(AIof(rows)), "res": obs(do), "kept": [before, enc2(X)]}


for h in range(scale(16, 300)):
    out.pending("fit/%d/%d" % (SHARD, h))
    ev, models = [], []
    key = 0
    todo = []
    for k in range(R.randint(1, 2)):
        mo = Model(k + 1, ev)
        if mo.ok:
            models.append(mo)
    for step in range(R.randint(4, 8)):
        if not models:
            break
        mo = R.choice(models)
        t = R.random()
        if not mo.fits and t < .15:
            ev.append(predict(mo, dict(m=1, names=None)))
        elif not mo.fits or t < .25:
            key += 1
            d = fit(mo, key)
            if d is None:
                continue
            mo.fits.append(d)
            ev.append(d[0]())
            mo.last = d[1]
        elif t < .4:
            d = R.choice(mo.fits)
            ev.append(d[0]())
            mo.last = d[1]
        elif t < .5:
            ev.append(bad_fit(mo, mo.last))
        else:
            ev.append(predict(mo, mo.last))
    out.run("fit/%d/%d" % (SHARD, h), ev)

# one iteration of WILS from a point of smoothness, with a short first step
for h in range(scale(40, 800)):
    ev = []
    for k in range(3):
        n, m = R.randint(1, 4), R.randint(1, 3)
        rows, b = rows_of(n, m, R.random() < .15, False), targets(n)
        f, norm = R.choice(["Tol", "Uni", "Uss"]), R.choice(["inf", "l1"])
        w = [Fr(R.choice([1, 1, 2, 8, 32]), R.choice([1, 4, 16])) for _ in range(n)]
        x0 = [R.choice([-1, 1]) * (Fr(R.randint(1, 40), 8) + Fr(R.randint(1, 63), 512)) for _ in range(m)]
        hh = Fr(1, 2 ** 16)

        def do():
            M = ip.WILS()
            M.fit(AIof(rows), vec(b), objective=f, norm=norm, weight=np.array([float(t) for t in w]), x0=np.array([float(t) for t in x0]), maxiter=1, h0=float(hh))
            return estimator(M)
        ev.append({"op": "step", "f": f, "norm": norm, "A": enc(AIof(rows)), "b": enc(vec(b)), "w": [num(t) for t in w],
                   "x0": [num(t) for t in x0], "h": num(hh), "res": obs(do, limit=60)})
    out.run("step/%d/%d" % (SHARD, h), ev)
out.close()
