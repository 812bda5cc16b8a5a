"""Row preparation, shapes of nested sequences, linear constraints (trace specification: RowsTrace)."""
import copy
from hlib import *

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("rows/%d" % SHARD)
out = Out()


def dy(n=16, q=4):
    return R.randint(-n, n) / R.choice([1, 1, q])


def rows_of(A):
    return [[num(x) for x in r] for r in np.asarray(A).tolist()]


def nums_of(b):
    return [num(x) for x in np.asarray(b).tolist()]


def form(A):
    """the same rows, held in another way"""
    A = np.array(A)
    k = R.randrange(4)
    return A if k < 2 else np.asfortranarray(A) if k == 2 else np.concatenate([A, A])[:len(A)]


def repeated(n, m, dec, zero=.3):
    """rows, some of them equal up to noise far below the rounding unit"""
    base = []
    for i in range(n):
        if base and R.random() < .45:
            r = list(R.choice(base))
            if R.random() < .3:
                r[R.randrange(m)] += R.choice([-1, 1]) * 2.0 * 10.0 ** -dec
        else:
            r = [0.0 if R.random() < zero else float(dy()) for _ in range(m)]
        base.append(r)
    noisy = []
    for r in base:
        noisy.append([x + (R.choice([-1, 1]) * .3 * 10.0 ** -dec * R.random() if R.random() < .4 else 0.0) for x in r])
        if R.random() < .1:
            noisy[-1] = [-0.0 if x == 0 else x for x in noisy[-1]]
    return noisy


def clear_of_ties(rows, dec):
    t = Fraction(10) ** dec
    return all(abs((Fraction(x) * t) % 1 - Fraction(1, 2)) > Fraction(1, 10) for r in rows for x in r)


def nested(depth):
    if depth == 0:
        k = R.randrange(4)
        return R.choice([lambda: R.randint(-3, 3), lambda: R.random(), lambda: Interval(1, 2), lambda: np.float64(3), lambda: Interval(2, 1, sortQ=False)])(), {"k": "leaf"}
    if depth <= 2 and R.random() < .25:
        sh = [R.randint(1, 3) for _ in range(depth)]
        if R.random() < .5:
            return np.zeros(sh), {"k": "array", "sh": sh}
        return ip.zeros(sh if depth > 1 else sh[0]), {"k": "array", "sh": sh}
    n = R.randint(1, 3)
    first, t = nested(depth - 1)
    items = [first] * n
    return (items if R.random() < .8 else tuple(items)), {"k": "list", "v": [t] * n}


def finish(ev, op, before, after, **k):
    ev.append(dict({"op": op, "same": before == after}, **k))


def helpers(ev):
    m = R.randint(1, 3)
    n = R.randint(1, 7)
    k = R.randrange(4)
    if k == 0:
        dec = R.choice([12, 12, 9, 3, 0])
        x = repeated(n, m, dec)
        if not clear_of_ties(x, dec):
            return
        X = form(x)
        b = rows_of(X)
        r = obs(lambda: ip.unique(X) if dec == 12 and R.random() < .7 else ip.unique(X, decimals=dec))
        finish(ev, "unique", b, rows_of(X), x=rows_of(x), dec=dec, r=r)
    elif k == 1:
        z = repeated(n, m + 1, 12)
        if not clear_of_ties(z, 12):
            return
        x, y = [r[:-1] for r in z], [r[-1] for r in z]
        X, Y = form(x), np.array(y)
        b = rows_of(X), nums_of(Y)
        finish(ev, "pairs", b, (rows_of(X), nums_of(Y)), x=b[0], y=b[1], r=obs(lambda: ip.non_repeat(X, Y)))
    elif k == 2:
        x = [[0.0] * m if R.random() < .35 else [0.0 if R.random() < .4 else float(dy()) for _ in range(m)] for _ in range(n)]
        x = [[t + (R.choice([-1, 1]) * 3e-13 * R.random() if R.random() < .3 else 0.0) for t in r] for r in x]
        # small entries are unknowns all the same
        x = [[R.choice([-1, 1]) * R.choice([2.3e-12, 7.2e-12, 3.1e-11, 6.4e-11, 4.3e-10]) if t == 0 and R.random() < .1 else t for t in r] for r in x]
        y = [R.choice([0.0, 0.0, -1.0, 2.0, -.5, .25, 3e-13, -3e-13, -0.0, 1e-9]) if not any(abs(t) > 1e-9 for t in r) and R.random() < .9 else float(dy()) for r in x]
        if R.random() < .3:
            y = [min(t, 0.0) for t in y]
        if not clear_of_ties(x + [y], 12):
            return
        X, Y = form(x), np.array(y)
        b = rows_of(X), nums_of(Y)
        finish(ev, "clear", b, (rows_of(X), nums_of(Y)), x=b[0], y=b[1],
               r=obs(lambda: ip.clear_zero_rows(X, Y) if m == 2 and R.random() < .6 else ip.clear_zero_rows(X, Y, ndim=m) if R.random() < .5 else ip.clear_zero_rows(X, Y, m)))
    else:
        x, t = nested(R.randint(0, 4))
        finish(ev, "shape", 0, 0, t=t, r=obs(lambda: ip.get_shape(x)))


def limits(C, x0, sign):
    r = R.random()
    if r < .2:
        return None
    v = [sum(a * t for a, t in zip(c, x0)) for c in C]
    return [sign * float("inf") if R.random() < .2 else t + sign * R.choice([0, .25, 1, 3, 8]) if R.random() < .9 else float(dy()) for t in v]


def constraint(ev):
    n, m = R.randint(1, 4), R.randint(1, 3)
    C = [[0 if R.random() < .25 else R.choice([R.randint(-4, 4), dy()]) for _ in range(m)] for _ in range(n)]
    if R.random() < .15:
        C[R.randrange(n)] = [0] * m
    x0 = [float(dy(8, 2)) for _ in range(m)]
    lb, ub = limits(C, x0, -1), limits(C, x0, 1)
    mu = R.choice([None, None, 1.0, .5, 3, 16.0])
    ok = True
    if R.random() < .08:
        ok = False
        which = R.randrange(3)
        if which == 0:
            lb = [0.0] * (n + 1)
        elif which == 1:
            ub = [0.0] * (n + 1)
        else:
            C, lb, ub = np.zeros((0, m)), [], None
    hold = (lambda v: None if v is None else R.choice([lambda: np.array(v, dtype=float), lambda: list(v), lambda: tuple(v)])())
    HC, HL, HU = (np.array(C) if R.random() < .6 else [list(c) for c in C]), hold(lb), hold(ub)
    snap = lambda: (rows_of(HC), HL is not None and nums_of(HL), HU is not None and nums_of(HU))
    b = snap()
    kw = {}
    if mu is not None:
        kw["mu"] = mu
    pos = R.random() < .3
    done, lc = call(lambda: ip.LinearConstraint(HC, HL, HU, **kw) if pos else ip.LinearConstraint(HC, lb=HL, ub=HU, **kw))
    txt = lambda v: "none" if v is None else num(v)
    r = {"k": "ok", "mu": txt(lc.mu)} if done else lc
    finish(ev, "new", b, snap(), mu=txt(mu), ok=ok, r=r)
    if not done:
        return
    args = dict(C=rows_of(C), lb=[] if lb is None else nums_of(lb), ub=[] if ub is None else nums_of(ub))
    N, d = rows_of(lc.C), nums_of(lc.b)
    for _ in range(3):
        x = np.array([float(t) + R.choice([0, 0, 1, -1]) * R.choice([.25, .5, 4]) for t in x0])
        if R.random() < .4:            # onto the border of a row, or next to it
            i = R.randrange(n)
            lim = [v[i] for v in (lb, ub) if v is not None and abs(v[i]) != float("inf")]
            j = R.randrange(m)
            if lim and C[i][j]:
                t = Fraction(R.choice(lim)) - sum(Fraction(float(C[i][k])) * Fraction(x[k]) for k in range(m) if k != j)
                t = t / Fraction(float(C[i][j])) + Fraction(R.choice([-1, 0, 0, 1]), 1024)
                if Fraction(float(t)) == t:
                    x[j] = float(t)
        w = lc.mu if lc.mu is not None else None
        if w is None:
            lc2 = copy.copy(lc)
            lc2.mu = w = R.choice([1.0, 2.0, .25])
        else:
            lc2 = lc
        bx = nums_of(x)
        large = []
        for i in range(len(N)):
            done, v = call(lambda: lc2.largeCondQ(x, i))
            large.append([num(v[0]), bool(v[1])] if done else ["nan", False])
        done, v = call(lambda: ip.BaseRecFun.linear_penalty(x, lc2))
        r = {"k": "ok", "p": num(v[0]), "g": nums_of(v[1])} if done else v
        finish(ev, "at", (bx, b, N, d), (nums_of(x), snap(), rows_of(lc.C), nums_of(lc.b)), N=N, d=d, mu=num(w), x=bx, large=large, r=r, **args)
    if any(any(t != "0" for t in c) for c in N) and R.random() < .7:
        q = R.choice([0, .5, 1, 2.5, 100, R.uniform(0, 9)])
        done, v = call(lambda: lc.find_mu(q))
        finish(ev, "weight", (b, N, d), (snap(), rows_of(lc.C), nums_of(lc.b)), N=N, num=num(q), r={"k": "ok", "v": num(v), "mu": num(lc.mu)} if done else v)


for h in range(scale(130, 2500)):
    ev = []
    for _ in range(6):
        (helpers if R.random() < .5 else constraint)(ev)
    if ev:
        out.run("rows/%d/%d" % (SHARD, h), ev)
out.close()
