"""What the drawing functions put on the canvas (trace specification: PictureTrace)."""
from hlib import *
import hashlib, shutil, tempfile
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgba

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("pictures/%d" % SHARD)
out = Out()
Fr = Fraction


# ---- what is on the canvas ------------------------------------------------------------------
def rgba(c):
    return [num(round(float(t), 6)) for t in c]


def pts(a):
    return [[num(t) for t in p] for p in np.asarray(a, dtype=float)]


def contents(ax):
    """Everything that an axes shows."""
    three = hasattr(ax, "get_zlim")
    polys, dots, lines = [], [], []
    for p in ax.patches:
        v = p.get_xy()
        fill = bool(p.get_fill())
        polys.append({"p": pts(v), "c": rgba(p.get_facecolor() if fill else p.get_edgecolor()), "f": fill})
    for c in ax.collections:
        if type(c).__name__ == "Poly3DCollection":
            col = c.get_facecolor()
            for i, f in enumerate(c._faces):
                polys.append({"p": pts(f), "c": rgba(col[i % len(col)]), "f": True})
        elif type(c).__name__ == "PolyCollection":
            col = c.get_facecolor()
            for i, f in enumerate(c.get_paths()):
                polys.append({"p": pts(f.vertices), "c": rgba(col[i % len(col)]), "f": True})
        else:
            o = np.ma.getdata(c.get_offsets()) if not three else np.array(c._offsets3d, dtype=float).T
            col, s = c.get_facecolor(), c.get_sizes()
            for i, q in enumerate(o):
                dots.append({"p": [num(t) for t in q], "c": rgba(col[i % len(col)]) if len(col) else [], "s": num(s[i % len(s)])})
    for ln in ax.lines:
        lines.append(pts(np.array(ln.get_data_3d() if three else ln.get_data(), dtype=float).T))
    lim = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if three else [])
    return {"polys": polys, "dots": dots, "lines": lines, "title": ax.get_title(), "lim": [[num(t) for t in p] for p in lim]}


def world():
    w = []
    for k in plt.get_fignums():
        f = plt.figure(k)
        w.append({"id": k, "size": [num(t) for t in f.get_size_inches()], "axes": [contents(a) for a in f.axes]})
    return w


def files(d):
    return sorted(f for f in os.listdir(d) if os.path.getsize(os.path.join(d, f)) > 0)


# ---- what is drawn ------------------------------------------------------------------------------
def fl(v):
    return [float(t) for t in v]


def matrix(rows, b):
    M = len(rows[0])
    A = np.empty((len(rows), M), dtype=object)
    for i, r in enumerate(rows):
        for j, (p, q) in enumerate(r):
            A[i, j] = Interval(float(p), float(q))
    d = np.empty(len(b), dtype=object)
    for i, (p, q) in enumerate(b):
        d[i] = Interval(float(p), float(q))
    return AI(A), AI(d)


def inequalities(m):
    c = [Fr(R.randint(-8, 8), 4) for _ in range(m)]
    rows = []
    kind = R.choice(["box", "box", "free", "empty", "thin"])
    if kind != "free":
        for j in range(m):
            for t in (1, -1):
                rows.append([Fr(t) if k == j else Fr(0) for k in range(m)] + [t * c[j] - Fr(R.randint(1, 12), 4)])
    for _ in range(R.randint(1, 3)):
        a = [Fr(R.randint(-4, 4)) for _ in range(m)]
        if any(a):
            rows.append(a + [sum(p * q for p, q in zip(a, c)) - Fr(R.randint(1, 12), 4)])
    if not rows:
        return inequalities(m)
    if kind == "empty":
        r = R.choice(rows)
        rows.append([-t for t in r[:-1]] + [-r[-1] + 3])
    if kind == "thin":
        r = R.choice(rows)
        rows.append([-t for t in r])
    R.shuffle(rows)
    return np.array([fl(r[:m]) for r in rows]), np.array([float(r[m]) for r in rows])


def intervals(m):
    n = R.choice([1, 2, 2, 3] if m == 2 else [2, 3, 3, 4])
    kind = R.choice(["uni", "uni", "tol"])
    x = [Fr(R.randint(-6, 6), 4) for _ in range(m)]
    w = R.choice([0, 1, 2])
    rows, b = [], []
    for i in range(n):
        row = []
        for j in range(m):
            c = Fr(R.randint(-4, 4)) + (Fr(5) if i == j else 0)
            row.append((c - Fr(R.randint(0, w), 4), c + Fr(R.randint(0, w), 4)))
        rows.append(row)
        lo = sum(min(p * t, q * t) for (p, q), t in zip(row, x))
        hi = sum(max(p * t, q * t) for (p, q), t in zip(row, x))
        if kind == "tol":
            b.append((lo - Fr(R.randint(0, 8), 4), hi + Fr(R.randint(0, 8), 4)))
        else:
            b.append(((lo + hi) / 2 - Fr(R.randint(1, 12), 4), (lo + hi) / 2 + Fr(R.randint(1, 12), 4)))
        if R.random() < .04:
            t = b[-1][1] + 30
            b[-1] = (t, t + 1)
    return matrix(rows, b), kind


COLOURS = ["gray", "red", "C1", "b", "#336699", (.2, .4, .6), "salmon"]


def style():
    kw = {}
    if R.random() < .6:
        kw["color"] = R.choice(COLOURS)
    if R.random() < .6:
        kw["alpha"] = R.choice([1, .25, .75, .1])
    if R.random() < .6:
        kw["s"] = R.choice([0, 1, 25, 10])
    return kw


def paths(res):
    """Vertex lists of a result, flat."""
    if isinstance(res, (list, tuple)) and not (res and is_real(res[0])):
        return [p for v in res for p in paths(v)]
    return [pts(res)] if np.ndim(res) == 2 else []


def show(m):
    ev = {"op": "show", "m": m}
    kw = style()
    col, alpha = kw.get("color", "gray" if m == 2 else "C0"), kw.get("alpha", .5)
    real = R.random() < .4
    f = (ip.lineqs if m == 2 else ip.lineqs3D) if real and R.random() < .7 else (ip.IntLinIncR2 if m == 2 else ip.IntLinIncR3)
    if real:
        args, k2 = inequalities(m), {}
    else:
        args, kind = intervals(m)
        k2 = {"consistency": kind} if kind == "tol" or R.random() < .3 else {}
    if R.random() < .4:
        lo, hi = [-float(R.randint(1, 9)) for _ in range(m)], [float(R.randint(1, 9)) for _ in range(m)]
        k2["bounds"] = [lo, hi]
        ev["bounds"] = [[num(t) for t in v] for v in (lo, hi)]
    else:
        ev["bounds"] = []
    if m == 3 and f is ip.IntLinIncR3 and not real and R.random() < .4:
        k2["zero_lvl"] = False
    ev["all"] = m == 2 or real or not k2.get("zero_lvl", True)
    if R.random() < .5:
        kw["size"] = R.choice([(4, 4), (3, 5), (6.5, 2)])
    ev["size"] = [num(t) for t in kw.get("size", (15, 15) if m == 2 else (8, 8))]
    ev["title"], save = "", False
    if m == 2:
        ev["title"] = "Solution Set"
        if R.random() < .6:
            kw["title"] = ev["title"] = R.choice(["plot", "A x = b", "set no 1", "x"])
        save = R.random() < .25
        if save or R.random() < .2:
            kw["save"] = save
            kw.setdefault("size", (3, 3))
            ev["size"] = [num(t) for t in kw["size"]]
    ev["save"] = save
    shown = R.random() < .85
    if not shown or R.random() < .4:
        kw["show"] = shown
    ev["show"] = shown
    ev["c"], ev["s"], ev["black"] = rgba(to_rgba(col, alpha)), num(kw.get("s", 10)), rgba(to_rgba("black", 1))
    ev["real"] = real
    ok, plain = call(f, *args, show=False, **k2)
    if not ok:
        return None
    quiet = set(plt.get_fignums())
    for name in os.listdir(d):
        if name.endswith(".png"):
            os.remove(os.path.join(d, name))
    ok, res = call(f, *args, **k2, **kw)
    ev["plain"] = paths(plain)
    ev["res"] = paths(res) if ok else []
    ev["err"] = [] if ok else [res["t"], res["m"]]
    ev["files"] = files(d)
    return ev


def canvas(plots):
    nr, nc = R.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (1, 3)])
    size = R.choice([None, (4, 4), (6, 3)])
    p = ip.IPlot(figsize=size) if size and R.random() < .5 else ip.IPlot()
    kw = {}
    if (nr, nc) != (1, 1) or R.random() < .5:
        kw = {"nrows": nr, "ncols": nc}
    want = p.figsize
    if size and p.figsize != size:
        kw["figsize"] = want = size
    ok, r = call(p.subplots, **kw)
    ev = {"op": "canvas", "n": nr * nc, "size": [num(t) for t in want], "err": [] if ok else [r["t"], r["m"]]}
    if ok:
        plots.append((p, nr, nc, r[0].number))
    return ev


def end():
    a = R.choice([Fr(R.randint(-8, 8), 2), Fr(R.randint(-3, 3))])
    return a, a + R.choice([0, 0, 1, 2, Fr(1, 2)])


def add(plots):
    p, nr, nc, fig = R.choice(plots)
    if (nr, nc) == (1, 1):
        index = None
    elif R.random() < .3:
        index = None
    elif nr > 1 and nc > 1:
        index = (R.randrange(nr), R.randrange(nc))
    else:
        index = R.randrange(max(nr, nc))
    kw = style()
    col, alpha, s = kw.get("color", "gray"), kw.get("alpha", .5), kw.get("s", 10)
    if index is not None:
        kw["axindex"] = index
    bad = index is not None and R.random() < .1
    if bad:
        kw["axindex"] = (nr, 0) if nr > 1 and nc > 1 else max(nr, nc)
    ev = {"op": "add", "fig": fig, "nc": nc, "index": [] if index is None else [index] if isinstance(index, int) else list(index),
          "c": rgba(to_rgba(col, alpha)), "s": num(s), "black": rgba(to_rgba("black", 1)), "bad": bad}
    k = R.randrange(3)
    if k == 0:
        n = R.randint(1, 5)
        x, y = [end() for _ in range(n)], [end() for _ in range(n)]
        if R.random() < .2:
            x, y = [(b, a) if R.random() < .3 else (a, b) for a, b in x], [(b, a) if R.random() < .3 else (a, b) for a, b in y]
        X, Y = matrix([x], y)
        if R.random() < .2 or any(a > b for a, b in x + y):
            mk = lambda v: AI(np.array([Interval(float(a), float(b), sortQ=False) for a, b in v] + [None], dtype=object)[:-1])
            X, Y = mk(x), mk(y)
        else:
            X = X[0]
        ev.update(draw="boxes", x=[[num(a), num(b)] for a, b in x], y=[[num(a), num(b)] for a, b in y])
        ok, r = call(p.scatter, X, Y, **kw)
    else:
        if k == 1:
            A, b = inequalities(2)
            ok, v = call(ip.lineqs, A, b, show=False)
            if not ok or len(v) == 0:
                return None
            f = p.lineqs
        else:
            args, kind = intervals(2)
            ok, v = call(ip.IntLinIncR2, *args, consistency=kind, show=False)
            if not ok:
                return None
            f = p.IntLinIncR2
        ev.update(draw="paths", paths=paths(v))
        ok, r = call(f, v, **kw)
    ev["err"] = [] if ok else [r["t"], r["m"]]
    return ev


home = tempfile.mkdtemp(prefix="pictures")
os.chdir(home)
try:
    for h in range(scale(30, 450)):
        ident = "pictures/%d/%d" % (SHARD, h)
        out.pending(ident)
        plt.close("all")
        d = os.path.join(home, str(h))
        os.mkdir(d)
        os.chdir(d)
        plots, evs = [], []
        for _ in range(R.randint(2, 6)):
            k = R.random()
            if k < .2 or (k < .6 and not plots):
                e = canvas(plots)
            elif k < .6:
                e = add(plots)
            else:
                e = show(2 if R.random() < .6 else 3)
            if e is None or (e.get("err") and e["err"][0] == "Timeout"):
                continue
            e["world"] = world()
            evs.append(e)
        os.chdir(home)
        shutil.rmtree(d)
        if evs:
            out.run(ident, evs)
finally:
    os.chdir("/")
    shutil.rmtree(home, ignore_errors=True)
out.close()
