"""Inner boxes and hulls of tolerable solution sets (trace specification: TolTrace)."""
from hlib import *
import solset
from cert import certificate

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("tolset/%d" % SHARD)
out = Out()
Fr = Fraction
L = ip.linear


def system():
    m = R.choice([1, 2, 2, 3, 3, 4, 5])
    n = R.choice([m, m, m + 1, m + 2, max(1, m - 1)])
    w = R.choice([0, 1, 1, 2, 4])
    x = [Fr(R.randint(-12, 12), 4) for _ in range(m)]
    rows, b = [], []
    for i in range(n):
        row = []
        for j in range(m):
            c, d, e = Fr(R.randint(-8, 8), 2), Fr(R.randint(0, w), 4), Fr(R.randint(0, w), 4)
            if R.random() < .15:
                c = d = e = Fr(0)
            row.append((c - d, c + e))
        rows.append(row)
        lo = sum(min(p * t, q * t) for (p, q), t in zip(row, x))
        hi = sum(max(p * t, q * t) for (p, q), t in zip(row, x))
        k = R.random()
        if k < .8:
            b.append((lo - Fr(R.randint(0, 12), 4), hi + Fr(R.randint(0, 12), 4)))
        else:
            b.append((min(lo, hi - Fr(R.randint(0, 8), 4)), hi - Fr(R.randint(0, 2), 4)))
            b[-1] = (min(b[-1]), max(b[-1]))
    return rows, b, x


def build(rows, b, kaucher):
    mk = lambda p, q: Interval(float(p), float(q), **({"sortQ": False} if kaucher else {}))
    M = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, (p, q) in enumerate(r):
            M[i, j] = mk(p, q)
    d = np.empty(len(b), dtype=object)
    for i, (p, q) in enumerate(b):
        d[i] = mk(p, q)
    return AI(M), AI(d)


for h in range(scale(160, 3000)):
    rows, b, x = system()
    n, m = len(rows), len(rows[0])
    A, B = build(rows, b, R.random() < .15)
    ev = []
    ident = "tolset/%d/%d" % (SHARD, h)
    out.pending(ident)
    pts, bounded, hull = solset.tolerable(rows, b)
    P = []
    if not pts:
        P, _ = certificate(rows, b, [Fr(1)] * n, [], [], [])
        P = P or []
    else:
        # an inner point, exactly
        pts.append([sum(p[j] for p in pts) / len(pts) for j in range(m)])
    before = [enc(A), enc(B)]
    res = obs(lambda: L.Rohn(A, B, consistency="tol"))
    ev.append({"op": "hull", "A": before[0], "b": before[1], "W": [[num(t) for t in p] for p in pts],
               "bounded": bool(pts) and bounded, "P": P, "res": res, "kept": [before, [enc(A), enc(B)]]})
    for k in range(3):
        y = list(x)
        c = R.random()
        if c < .4 and pts:
            y = pts[-1]
        elif c < .55 and pts:
            y = R.choice(pts)
        elif c < .65:
            y = [Fr(R.randint(-12, 12), 2) for _ in range(m)]
        y = [Fr(float(t)) for t in y]
        w = R.choice([None, None, [Fr(1)] * m, [Fr(R.choice([1, 2, 4, 6]), 2) for _ in range(m)], [Fr(R.choice([0, 1, 3]), 2) for _ in range(m)]])
        W = [Fr(1)] * m if w is None else w
        if any(sum(max(abs(p), abs(q)) * t for (p, q), t in zip(row, W)) == 0 for row in rows):
            continue
        Y = np.array([float(t) for t in y])
        V = None if w is None else np.array([float(t) for t in w])
        before = [enc(A), enc(B), enc(Y), enc(V)]
        res = obs(lambda: L.Neumaier(A, B, Y) if V is None and R.random() < .7 else L.Neumaier(A, B, Y, V))
        ev.append({"op": "inner", "A": before[0], "b": before[1], "y": [num(t) for t in y], "w": [] if w is None else [num(t) for t in w],
                   "res": res, "kept": [before, [enc(A), enc(B), enc(Y), enc(V)]]})
    out.run(ident, ev)
out.close()
