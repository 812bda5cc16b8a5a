"""Vertices of drawn solution sets (trace specification: DrawTrace).  Argument: 2 or 3 unknowns."""
from hlib import *

M = int(sys.argv[2])
SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("draw%d/%d" % (M, SHARD))
out = Out()
Fr = Fraction
lineqs, ils = (ip.lineqs, ip.IntLinIncR2) if M == 2 else (ip.lineqs3D, ip.IntLinIncR3)
rows_cap = 7 if M == 2 else 5


def dot(u, v):
    return sum(a * b for a, b in zip(u, v))


def coef():
    k = R.random()
    return Fr(R.randint(-4, 4)) if k < .7 else Fr(R.randint(-16, 16), 4)


def normal():
    while True:
        a = [coef() for _ in range(M)]
        if R.random() < .2:
            j = R.randrange(M)
            a = [Fr(R.choice([-1, 1, 2, -3])) if k == j else Fr(0) for k in range(M)]
        if any(a):
            return a


def system():
    """Rows a x >= b, mostly with an interior point c; some pass through common points."""
    c = [Fr(R.randint(-12, 12), 4) for _ in range(M)]
    n = R.randint(1, rows_cap)
    rows = []
    pts = [[x + Fr(R.randint(-8, 8), 2) for x in c] for _ in range(3)]
    kind = R.choice(["free", "free", "special", "special", "box", "box", "chip", "empty", "thin", "round"])
    if kind == "round":                               # many sides
        seen = set()
        for _ in range(R.randint(8, 20) if M == 2 else R.randint(6, 8)):
            a = [R.randint(-4, 4) for _ in range(M)]
            if any(a) and tuple(t / max(map(abs, a)) for t in a) not in seen:
                seen.add(tuple(t / max(map(abs, a)) for t in a))
                r = Fr(int(sum(t * t for t in a) ** .5 * 64), 8) + Fr(R.randint(0, 3), 8)
                rows.append([Fr(t) for t in a] + [dot(a, c) - r])
        n = 0
    if kind == "chip":                                # a box without a small corner: short edges
        s = [R.choice([-1, 1]) for _ in range(M)]
        w = [Fr(R.randint(4, 12), 4) for _ in range(M)]
        for j in range(M):
            for t in (1, -1):
                rows.append([Fr(t) if k == j else Fr(0) for k in range(M)] + [t * c[j] - w[j]])
        for _ in range(R.randint(1, 2)):
            a = [Fr(-t * R.choice([1, 1, 2, 3])) for t in s]
            corner = [x + t * y for x, t, y in zip(c, s, w)]
            rows.append(a + [dot(a, corner) + Fr(R.choice([1, 1, 2, 3]), 2 ** R.randint(2, 15 if M == 2 else 9))])
            s = [-t for t in s]
        n = 0
    if kind == "box":
        for j in range(M):
            w1, w2 = Fr(R.randint(1, 20), 4), Fr(R.randint(1, 20), 4)
            s = Fr(R.choice([1, 1, 1, 2, 3, 7, Fr(1, 2)]))
            rows.append([s if k == j else Fr(0) for k in range(M)] + [(c[j] - w1) * s])
            s = Fr(R.choice([1, 1, 1, 2, 3, 7, Fr(1, 2)]))
            rows.append([-s if k == j else Fr(0) for k in range(M)] + [-(c[j] + w2) * s])
        n = R.randint(0, 3)
    for _ in range(n):
        a = normal()
        if kind in ("special", "box") and R.random() < .7:
            p = R.choice(pts)
            b = dot(a, p)
            if b > dot(a, c) or (b == dot(a, c) and R.random() < .5):
                a, b = [-t for t in a], -b
        else:
            b = dot(a, c) - Fr(R.randint(1, 24), 4)
        rows.append(a + [b])
    if R.random() < .3 and rows:                     # the same or a parallel row again
        r = R.choice(rows)
        s = Fr(R.choice([1, 1, 2, 3, 5, Fr(1, 2)]))
        rows.append([t * s for t in r])
        if R.random() < .4:
            rows[-1][-1] -= Fr(R.randint(-2, 4), 2)
    if kind == "empty":
        r = R.choice(rows)
        rows.append([-t for t in r[:-1]] + [-r[-1] + Fr(R.randint(1, 8), 4)])
    if kind == "thin":
        r = R.choice(rows)
        s = Fr(R.choice([1, 1, 2, 3]))
        rows.append([-t * s for t in r])
    if R.random() < .1:
        rows.append([Fr(0)] * M + [Fr(R.choice([-1, -1, 0, 1]))])
    R.shuffle(rows)
    return rows, c


def decimals():
    """General position, coefficients without exact doubles."""
    c = [R.uniform(-3, 3) for _ in range(M)]
    for _ in range(50):
        rows = []
        for j in range(M):
            rows.append([1. if k == j else 0. for k in range(M)] + [round(c[j] - R.uniform(.5, 4), 2)])
            rows.append([-1. if k == j else 0. for k in range(M)] + [round(-c[j] - R.uniform(.5, 4), 2)])
        for _ in range(R.randint(1, 4 if M == 2 else 2)):
            a = [round(R.uniform(-2, 2), 2) for _ in range(M)]
            rows.append(a + [round(dot(a, c) - R.uniform(.1, 3), 2)])
        if M == 2:
            P = []
            for i in range(len(rows)):
                for k in range(i):
                    d = rows[i][0] * rows[k][1] - rows[i][1] * rows[k][0]
                    if d:
                        P.append(((rows[i][2] * rows[k][1] - rows[i][1] * rows[k][2]) / d, (rows[i][0] * rows[k][2] - rows[i][2] * rows[k][0]) / d))
            sines = [abs(r[0] * q[1] - r[1] * q[0]) for i, r in enumerate(rows) for q in rows[:i]]
            gaps = [max(abs(p[0] - q[0]), abs(p[1] - q[1])) for i, p in enumerate(P) for q in P[:i]]
            if min(gaps) < 1e-3 or any(0 < t < 1e-2 for t in sines):
                continue
        else:
            N = np.array([r[:M] for r in rows])
            dets = [abs(np.linalg.det(N[[i, j, k]])) for i in range(len(N)) for j in range(i) for k in range(j)]
            if any(0 < t < 1e-2 for t in dets):
                continue
            P = []
            for i in range(len(N)):
                for j in range(i):
                    for k in range(j):
                        s = [i, j, k]
                        if abs(np.linalg.det(N[s])) > 1e-2:
                            P.append(np.linalg.solve(N[s], [rows[t][M] for t in s]))
            if min(np.max(np.abs(p - q)) for i, p in enumerate(P) for q in P[:i]) < 1e-3:
                continue
        return [[Fr(t) for t in r] for r in rows], c
    return system()


def intervals():
    n = R.choice([1, 2, 2, 2, 3, 4, 6] if M == 2 else [1, 2, 3, 3, 4])
    kind = R.choice(["uni", "uni", "tol"])
    x = [Fr(R.randint(-8, 8), 4) for _ in range(M)]
    w = R.choice([0, 1, 2, 4])
    rows, b = [], []
    for i in range(n):
        row = []
        for j in range(M):
            c = Fr(R.randint(-6, 6)) + (Fr(5) if R.random() < .3 and i == j else 0)
            d, e = Fr(R.randint(0, w), 4), Fr(R.randint(0, w), 4)
            row.append((c - d, c + e))
        rows.append(row)
        lo = sum(min(p * t, q * t) for (p, q), t in zip(row, x))
        hi = sum(max(p * t, q * t) for (p, q), t in zip(row, x))
        if kind == "tol":
            b.append((lo - Fr(R.randint(0, 8), 4), hi + Fr(R.randint(0, 8), 4)))
        else:
            m = (lo + hi) / 2
            b.append((m - Fr(R.randint(0, 8), 4), m + Fr(R.randint(0, 8), 4)))
        if R.random() < .06:
            t = b[-1][1] + 30
            b[-1] = (t, t + 1)
    return rows, b, kind


def box_for(c):
    lo = [t - Fr(R.randint(1, 24), 2) for t in c]
    hi = [t + Fr(R.randint(1, 24), 2) for t in c]
    if R.random() < .15:
        lo = [t + 40 for t in lo]
        hi = [t + 40 for t in hi]
    return [lo, hi]


def fl(v):
    return [float(t) for t in v]


def matrix(rows, b):
    A = np.empty((len(rows), M), dtype=object)
    for i, r in enumerate(rows):
        for j, (p, q) in enumerate(r):
            A[i, j] = Interval(float(p), float(q))
    d = np.empty(len(b), dtype=object)
    for i, (p, q) in enumerate(b):
        d[i] = Interval(float(p), float(q))
    return AI(A), AI(d)


def encode(res):
    return enc(res)


for h in range(scale(80 if M == 2 else 40, 1200 if M == 2 else 480)):
    ev = []
    redo = []
    ident = "draw%d/%d/%d" % (M, SHARD, h)
    out.pending(ident)
    for _ in range(R.randint(2, 5)):
        k = R.random()
        if k < .1:
            if R.random() < .5:
                args = (matrix([[(1, 2)] * M], [(0, 1)]) + ("both",))
                f = lambda A, b, c: ils(A, b, show=False, consistency=c)
            else:
                args = (np.ones((3, M + 1)), np.ones(3))
                f = lambda A, b: lineqs(A, b, show=False)
            ev.append({"op": "fail", "res": obs(f, *args)})
            continue
        if k < .55:
            rows, c = system() if R.random() < .85 else decimals()
            box = box_for(c) if R.random() < .3 else []
            A, b = np.array([fl(r[:M]) for r in rows]), np.array(fl([r[M] for r in rows]))
            if R.random() < .15:
                A, b = [fl(r[:M]) for r in rows], fl([r[M] for r in rows])
            if all(float(t).is_integer() for r in rows for t in r) and R.random() < .5:
                A, b = np.array(A, dtype=int), np.array(b, dtype=int)
            e = {"op": "rows", "m": M, "C": [[num(t) for t in r] for r in rows]}
            f, args = (ils if R.random() < .15 else lineqs), (A, b)
            kw = {"show": False}
        else:
            rows, b, kind = intervals()
            box = box_for([Fr(0)] * M) if R.random() < .25 else []
            if box:
                box = [[min(t, Fr(-1)) for t in box[0]], [max(t, Fr(1)) for t in box[1]]]
            e = {"op": "ils", "m": M, "kind": kind, "a": [[[num(p), num(q)] for p, q in r] for r in rows], "b": [[num(p), num(q)] for p, q in b]}
            f, args, kw = ils, matrix(rows, b), {"show": False, "consistency": kind}
        e["box"] = [[num(t) for t in v] for v in box]
        if box:
            kw["bounds"] = [fl(v) for v in box]
        before = obs(lambda: [args[0], args[1]])
        ok, res = call(f, *args, **kw)
        e["res"] = encode(res) if ok else res
        if not ok and res["t"] == "Timeout":
            continue
        e["kept"] = obs(lambda: [args[0], args[1]]) == before
        ev.append(e)
        redo.append((len(ev), f, args, kw))
    for i, f, args, kw in R.sample(redo, min(len(redo), 2)):
        ok, res = call(f, *args, **kw)
        ev.append({"op": "again", "as": i, "res": encode(res) if ok else res})
    if ev:
        out.run(ident, ev)
out.close()
