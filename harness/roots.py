"""Enclosures of zeros by Krawczyk and HansenSengupta (trace specification: RootTrace).  All zeros
of the systems are known exactly; the call-backs record what they are called with."""
from hlib import *
import poly

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("roots/%d" % SHARD)
out = Out()
Fr = Fraction
EMPTY = ["Брус не содержит решений!", "The united solution set does not intersect the bar X."]


def q(k=16, d=8):
    return Fr(R.randint(-k, k), d)


def one():
    """One equation: product of linear factors, sometimes times a factor without zeros."""
    r = sorted({q() for _ in range(R.randint(1, 3))})
    p = poly.const(R.choice([1, -1, 2, Fr(1, 2)]), 1)
    for t in r:
        p = poly.mul(p, poly.add(poly.var(0, 1), poly.const(-t, 1)))
    linear = len(r) == 1
    if R.random() < .3:
        p = poly.mul(p, poly.add(poly.mul(poly.var(0, 1), poly.var(0, 1)), poly.const(R.choice([1, 4]), 1)))
        linear = False
    return [p], [[t] for t in r], linear


def several(m):
    kind = R.choice(["linear", "square", "product", "mixed"] if m < 4 else ["linear", "linear", "square"])
    z = [q() for _ in range(m)]
    d = [poly.add(poly.var(j, m), poly.const(-z[j], m)) for j in range(m)]
    sys_, zs = [], [z]
    a = [[Fr(R.randint(-4, 4), 4) for _ in range(m)] for _ in range(m)]
    for i in range(m):
        a[i][i] = R.choice([-1, 1]) * (sum(map(abs, a[i])) + R.choice([1, 2]))
    if R.random() < .2:
        R.shuffle(a)
    if kind == "product":
        w = [q() for _ in range(m)]
        for i in range(m):
            p = poly.mul(d[i], poly.add(poly.var(i, m), poly.const(-w[i], m)))
            sys_.append(p)
        if R.random() < .5:
            sys_[0] = poly.add(sys_[0], sys_[-1], Fr(1, 4))
            if m == 1:
                sys_[0] = poly.mul(d[0], poly.add(poly.var(0, m), poly.const(-w[0], m)))
        zs = [[(z, w)[(k >> j) & 1][j] for j in range(m)] for k in range(2 ** m)]
        zs = [list(t) for t in {tuple(t) for t in zs}]
    else:
        for i in range(m):
            p = {}
            for j in range(m):
                p = poly.add(p, d[j], a[i][j])
            if kind != "linear":
                j, k = R.randrange(m), R.randrange(m)
                p = poly.add(p, poly.mul(d[j], d[k]), Fr(R.randint(-2, 2), 4))
            if kind == "mixed":
                j = R.randrange(m)
                p = poly.add(p, poly.mul(d[j], poly.mul(d[j], d[j])), Fr(R.randint(-1, 1), 4))
            sys_.append(p)
    return sys_, zs, kind == "linear" and all(a[i][i] != 0 and abs(a[i][i]) > sum(map(abs, a[i])) - abs(a[i][i]) for i in range(m))


def box(zs, m):
    """Around, touching or beside zeros."""
    X = []
    t = R.choice(zs)
    u = R.choice(zs)
    both = R.random() < .3
    for j in range(m):
        lo, hi = (min(t[j], u[j]), max(t[j], u[j])) if both else (t[j], t[j])
        k = R.random()
        a, b = Fr(R.randint(1, 16), R.choice([2, 8, 32])), Fr(R.randint(1, 16), R.choice([2, 8, 32]))
        if k < .15:
            a = Fr(0)
        elif k < .3:
            b = Fr(0)
        elif k < .38:
            a = -min(b / 2, Fr(1, 8))
        X.append((lo - a, max(hi + b, lo - a + Fr(1, 64))))
    return X


for h in range(scale(600, 12000)):
    m = R.choice([1, 1, 2, 2, 3, 1, 2, 3, 4, 5])
    scalar = m == 1 and R.random() < .85
    f, zs, linear = one() if m == 1 else several(m)
    X = box(zs, m)
    df = [[poly.diff(p, j) for j in range(m)] for p in f]
    meth = R.choice(["Krawczyk", "HansenSengupta"])
    style = R.choice(["interval", "list", "object"])
    log = []

    def note(op, x):
        if len(log) < 400:
            log.append({"op": op, "x": enc(x)})

    def arr(rows):
        flat = [t if isinstance(t, (CA, KA)) else Interval(float(t), float(t)) for t in rows]
        d = np.empty(len(flat), dtype=object)
        d[:] = flat
        return d

    def func(x):
        note("func", x)
        if scalar:
            return poly.lib(f[0], [x])
        v = arr([poly.lib(p, x) for p in f])
        return AI(v)

    def J(x):
        note("J", x)
        if scalar:
            r = poly.lib(df[0][0], [x])
            return r
        v = arr([poly.lib(p, x) for row in df for p in row]).reshape(m, m)
        return AI(v) if style != "list" else [list(r) for r in v] if style == "list" else v

    if scalar:
        x0 = Interval(float(X[0][0]), float(X[0][1]))
    else:
        d = np.empty(m, dtype=object)
        d[:] = [Interval(float(p), float(t)) for p, t in X]
        x0 = AI(d)
    kw = {}
    if R.random() < .4:
        kw["maxiter"] = R.choice([0, 1, 2, 3, 10])
    if R.random() < .2:
        kw["tol"] = R.choice([1e-3, 1e-14])
    ident = "roots/%d/%d" % (SHARD, h)
    out.pending(ident)
    before = enc(x0)
    res = obs(lambda: getattr(ip.nonlinear, meth)(func, J, x0, **kw), limit=20)
    ev = [{"op": "start", "method": meth, "f": [poly.enc(p) for p in f], "X": [[num(p), num(t), "C"] for p, t in X], "Z": [[num(t) for t in z] for z in zs],
           "maxiter": kw.get("maxiter", 2000), "linear": linear, "full": kw.get("maxiter", 9) > 2 and kw.get("tol", 0) < 1e-9, "empty": EMPTY}]
    ev += log
    ev.append({"op": "stop", "method": meth, "res": res, "kept": [before, enc(x0)]})
    out.run(ident, ev)
out.close()
