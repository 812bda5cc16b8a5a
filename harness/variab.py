"""The variability measure of interval systems (trace specification: VarTrace)."""
from hlib import *

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("variab/%d" % SHARD)
out = Out()
Fr = Fraction


def system():
    m = R.choice([1, 2, 2, 2, 2, 3])
    n = R.choice([1, 2, 2, 3, 3])
    if m == 3:                                        # orthogonal columns
        n = R.choice([3, 4])
        c = [Fr(R.randint(1, 9), R.choice([1, 2, 4])) * R.choice([1, -1]) for _ in range(3)]
        at = R.sample(range(n), 3)
        rows = [[(c[j], c[j]) if at[j] == i else (Fr(0), Fr(0)) for j in range(3)] for i in range(n)]
    else:
        w = R.choice([0, 1, 2, 4])
        kind = R.choice(["any", "any", "dominant", "close"])
        rows = []
        for i in range(n):
            row = []
            for j in range(m):
                c = Fr(R.randint(-6, 6)) if kind != "close" else Fr(R.randint(18, 22))
                if kind == "dominant" and i == j:
                    c += 12
                row.append((c - Fr(R.randint(0, w), 4), c + Fr(R.randint(0, w), 4)))
            rows.append(row)
    x = [Fr(R.randint(-8, 8), 4) for _ in range(m)]
    b = []
    for r in rows:
        lo = sum(min(p * t, q * t) for (p, q), t in zip(r, x))
        hi = sum(max(p * t, q * t) for (p, q), t in zip(r, x))
        k = R.random()
        if k < .6:                                     # tolerable at x
            b.append((lo - Fr(R.randint(1, 8), 4), hi + Fr(R.randint(1, 8), 4)))
        else:
            b.append((lo, lo + Fr(R.randint(0, 8), 4)))
    return rows, b


def stream():
    """Twenty states of the generator: what a call with one draw answers, and the generator afterwards."""
    B = [[(Fr(R.randint(1, 4)), Fr(R.randint(5, 9))), (Fr(R.randint(-4, -1)), Fr(R.randint(1, 4)))] for _ in "ab"]
    B[1].reverse()
    A = AI(np.array([[Interval(float(p), float(q)) for p, q in row] for row in B], dtype=object))
    d = Interval([-9, -7], [8, 9])
    vals, after = [], []
    for k in R.sample(range(10 ** 6), 20):
        np.random.seed(k)
        vals.append(obs(ip.linear.ive, A, d, N=1))
        after.append(str(list(np.random.randint(0, 2 ** 31, 4))))
    return {"op": "stream", "A": [[[num(p), num(q)] for p, q in row] for row in B], "vals": vals, "after": after}


for h in range(scale(40, 600)):
    ident = "variab/%d/%d" % (SHARD, h)
    out.pending(ident)
    ev = []
    for _ in range(3):
        rows, b = system()
        n, m = len(rows), len(rows[0])
        A = np.empty((n, m), dtype=object)
        for i in range(n):
            for j in range(m):
                A[i, j] = Interval(float(rows[i][j][0]), float(rows[i][j][1]))
        d = np.empty(n, dtype=object)
        d[:] = [Interval(float(p), float(q)) for p, q in b]
        A, d = AI(A), AI(d)
        wide = sum(p != q for r in rows for p, q in r)
        sure = R.random() < .7
        N = max(1, wide and int(22 * 2 ** wide)) if sure else R.choice([1, 2, 5, 40])
        np.random.seed(R.randrange(2 ** 32))
        ok, r = call(ip.Tol.maximize, A, d)
        if not ok:
            continue
        f = ip.linear.ive
        v = obs(f, A, d, N=N) if N != 40 or R.random() < .5 else obs(f, A, d)
        if v["k"] == "err" and v["t"] == "Timeout":
            continue
        ev.append({"op": "ive", "A": [[[num(p), num(q)] for p, q in row] for row in rows],
                   "mag": [num(max(abs(p), abs(q))) for p, q in b], "N": N, "sure": bool(sure or wide == 0),
                   "x": [num(t) for t in r[0]], "f": num(r[1]), "res": v})
    if R.random() < .3:
        ev.append(stream())
    if ev:
        out.run(ident, ev)
out.close()
