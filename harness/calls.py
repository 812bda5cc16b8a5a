"""Well formed and ill formed calls of every entry point (trace specification: CallsTrace)."""
import matplotlib
matplotlib.use("Agg")
from hlib import *
from intvalpy.linear.ChebNorm import ChebNorm

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("calls/%d" % SHARD)
out = Out()
NO = [-1]
FUNCTIONALS = {"Tol": ip.Tol.maximize, "Uni": ip.Uni.maximize, "Uss": ip.Uss.maximize, "ChebNorm": ChebNorm.minimize}


def size(k=4):
    return R.randint(1, k)


def off(n):
    """Another size."""
    return R.choice([k for k in (n - 1, n + 1, n + 2, 1) if k >= 1 and k != n])


def maybe(n, p):
    return off(n) if R.random() < p else n


def dominant(n, m, wide=.01):
    c = np.array([[R.uniform(-.2, .2) + (R.choice([-2, 2, 3]) if i % m == j else 0) for j in range(m)] for i in range(n)]).reshape(n, m)
    r = np.array([[R.choice([0, wide, wide / 3]) for _ in range(m)] for _ in range(n)]).reshape(n, m)
    return c, Interval(c - r, c + r, sortQ=False)


def vec(n, wide=1.):
    c = np.array([R.uniform(-4, 4) for _ in range(n)])
    return Interval(c - wide, c + wide, sortQ=False)


def arr(sh, f=None):
    d = np.empty(int(np.prod(sh)), dtype=object)
    d[:] = [f() if f else Interval(*sorted((R.uniform(-3, 3), R.uniform(-3, 3)))) for _ in range(d.size)]
    return AI(d.reshape(sh))


def shape(v):
    if isinstance(v, tuple) and v:
        v = v[0]
    if isinstance(v, (CA, KA)) or is_real(v):
        return []
    try:
        return [int(k) for k in v.shape]
    except Exception:
        return NO


def event(op, s, opt, f, args, kw=None, x=None, p="0", ok=True, keep=()):
    """Calls and records; keep: objects that must not change."""
    objs = list(args) + list((kw or {}).values()) + list(keep)
    before = [enc(o) for o in objs]
    done, v = call(f, *args, limit=60, **(kw or {}))
    return {"op": op, "s": [list(t) for t in s], "opt": opt, "x": x or ["0", "0", "C"], "p": p, "ok": ok,
            "err": "" if done else v["t"], "out": shape(v) if done else NO, "same": [enc(o) for o in objs] == before}


def square():
    op = R.choice(["Gauss", "Gauss_Seidel", "HBR", "PPS", "Subdiff"])
    n = size(3 if op == "PPS" else 5)
    m, k = maybe(n, .4), maybe(n, .35)
    _, A = dominant(n, m)
    return event(op, [(n, m), (k,)], "", getattr(ip, op), (A, vec(k)), ok=n == m)


def rohn():
    opt = R.choice(["uni", "uni", "tol", "all", "", "Uni"])
    n, m = size(5), size(3)
    k = maybe(n, .3)
    if n < m and opt == "tol":
        n = k = m
    if opt == "tol":
        c, A = dominant(n, m, 0)
        x = np.array([R.uniform(-3, 3) for _ in range(m)])
        b = Interval(c @ x - 1, c @ x + 1) if k == n else vec(k)
    else:
        c, A = dominant(n, m, 1e-3)
        b = vec(k)
    f = ip.Rohn
    kw = {} if opt == "uni" and R.random() < .5 else {"consistency": opt}
    return event("Rohn", [(n, m), (k,)], opt, f, (A, b), kw)


def neumaier():
    n, m = size(), size(3)
    k, y, w = maybe(n, .25), maybe(m, .25), R.choice([None, maybe(m, .3)])
    c, A = dominant(n, m, .01)
    p = np.array([R.uniform(-3, 3) for _ in range(y)])
    t = c @ p if y == m else np.zeros(n)
    b = Interval(t - 3, t + 3) if k == n else vec(k)
    args = [A, b, p] + ([] if w is None else [np.array([R.uniform(.5, 2) for _ in range(w)])])
    return event("Neumaier", [(n, m), (k,), (y,), NO if w is None else (w,)], "", ip.Neumaier, args)


def optimum():
    opt = R.choice(list(FUNCTIONALS))
    n, m = size(), size(3)
    k = maybe(n, .3)
    kw, s = {}, [(n, m), (k,), NO, NO, NO, NO]
    if R.random() < .5:
        y = maybe(m, .3)
        kw["x0"] = np.array([R.uniform(-1, 1) for _ in range(y)])
        s[2] = (y,)
    C = None
    if R.random() < .4:
        r, c = size(3), maybe(m, .3)
        C = np.array([[R.choice([-1, 1, 2]) for _ in range(c)] for _ in range(r)], dtype=float).reshape(r, c)
        lim = {}
        s[3] = (r, c)
        if R.random() < .6:
            l = maybe(r, .3)
            lim["lb"], s[4] = np.full(l, -50.), (l,)
        if R.random() < .6:
            u = maybe(r, .3)
            lim["ub"], s[5] = np.full(u, 50.), (u,)
    _, A = dominant(n, m, .1)

    def f(A, b, **kw):
        if C is not None:
            kw["linear_constraint"] = ip.LinearConstraint(C, **lim)
        return FUNCTIONALS[opt](A, b, maxiter=20, **kw)
    return event("maximize", s, opt, f, (A, vec(k)), kw, keep=() if C is None else (C,) + tuple(lim.values()))


def wils():
    opt = R.choice(["Tol", "Uni", "Uss", "Tol", "Cheb", "tol", ""])
    n, m = size(), size(3)
    k = maybe(n, .3)
    y = R.choice([None, None, maybe(m, .4)])
    _, A = dominant(n, m, .1)
    model = ip.WILS()

    def f(A, b, **kw):
        model.fit(A, b, objective=opt, maxiter=20, **kw)
        return model.estimator["xr"]
    return event("WILS", [(n, m), (k,), NO if y is None else (y,), NO], opt, f, (A, vec(k)), {} if y is None else {"x0": np.array([R.uniform(-1, 1) for _ in range(y)])})


def picture():
    op = R.choice(["lineqs", "IntLinIncR2", "lineqs3D", "IntLinIncR3"])
    w = 2 if op in ("lineqs", "IntLinIncR2") else 3
    n, m = size(), R.choice([w, w, w, 4, 5 - w, 1])
    k = maybe(n, .25)
    c, A = dominant(n, m, .1)
    b = vec(k)
    kw = {"show": False, "bounds": [[-5.] * w, [5.] * w]}
    if op in ("lineqs", "lineqs3D"):
        opt = R.choice(["numbers", "numbers", "numbers", "interval"])
        if op == "lineqs3D" and opt == "interval":
            opt = "numbers"
        if opt == "numbers":
            A, b = c, b.mid
        elif R.random() < .5:
            A = c
    else:
        opt = R.choice(["uni", "uni", "tol", "tol", "all", "", "Tol"])
        kw["consistency"] = opt
    return event(op, [(n, m), (k,)], opt, getattr(ip, op), (A, b), kw)


def matmul():
    a, b = (tuple(size(3) for _ in range(R.choice([1, 2]))) for _ in "ab")
    if R.random() < .5:
        b = (a[-1],) + b[1:]
    x, y = arr(a), arr(b)
    k = R.randrange(3)
    if k == 1:
        y = np.array([R.uniform(-2, 2) for _ in range(int(np.prod(b)))]).reshape(b)
    elif k == 2:
        x = np.array([R.uniform(-2, 2) for _ in range(int(np.prod(a)))]).reshape(a)
    return event("matmul", [a, b], "", lambda x, y: x @ y, (x, y))


def meet():
    a = tuple(size(3) for _ in range(R.choice([1, 1, 2])))
    b = a if R.random() < .4 else tuple(maybe(k, .5) for k in a) if R.random() < .7 else a + (a[-1],)
    return event("intersection", [a, b], "", ip.intersection, (arr(a), arr(b)))


def vertex():
    a = tuple(size(3) for _ in range(R.choice([1, 2, 3])))
    while int(np.prod(a)) > 6:
        a = tuple(size(2) for _ in a)
    return event("vertex", [a], "", lambda x: x.vertex, (arr(a),))


def dist():
    opt, o = R.choice([("whole", 1), ("whole", 2), ("whole", 5), ("infinity", ip.infinity), ("text", "inf"), ("text", "2"), ("real", 2.5), ("none", None)])
    a = (size(),)
    return event("dist", [a], opt, ip.dist, (arr(a), arr(a)), {"order": o})


def ufunc():
    opt = R.choice(["sqrt", "exp", "log", "sin", "cos", "tanh", "arctan", "cosh", "floor", "log10", "log2", "exp2", "sinh", "tan", "expm1", "arcsin", "rint"])
    x = Interval(*sorted((R.uniform(.1, .9), R.uniform(.1, .9))))
    if R.random() < .4:
        sh = (size(),)
        d = np.empty(sh[0], dtype=object)
        d[:] = [x] * sh[0]
        x = AI(d)
        e = event("ufunc", [sh], opt, getattr(np, opt), (x,))
        e["out"] = [] if e["out"] == list(sh) else e["out"]
        return e
    return event("ufunc", [()], opt, getattr(np, opt), (x,))


def order():
    import operator
    opt, o = R.choice([("number", 1.5), ("number", 2), ("interval", Interval(0, 1)), ("interval", KA(2., 1.)), ("text", "1"), ("none", None), ("dict", {}), ("type", int)])
    return event("order", [()], opt, R.choice([operator.lt, operator.le, operator.gt, operator.ge]), (Interval(0, R.choice([1, 2])), o))


def convert():
    opt, o = R.choice([("number", 1.5), ("number", 3), ("interval", Interval(0, 1)), ("list", [1, 2.5]), ("list", [Interval(1, 2), 3]), ("numbers", np.arange(4.)),
                       ("text", "12"), ("text", "[1, 2]"), ("none", None), ("ragged", [[1, 2], [3]]), ("object", object()), ("texts", ["a", "b"])])
    return event("asinterval", [()], opt, ip.asinterval, (o,))


def nested():
    n, m = R.randint(2, 4), size()
    o = [[R.randint(0, 9) for _ in range(m)] for _ in range(n)]
    opt = R.choice(["even", "ragged"])
    if opt == "ragged":
        i = R.randrange(n)
        o[i] = o[i] + [1] if R.random() < .5 else [1] * (m + 2)
    return event("get_shape", [()], opt, ip.get_shape, (tuple(o) if R.random() < .3 else o,))


def end():
    return R.choice([R.randint(-3, 3), R.uniform(-3, 3), 0, 0.0, -0.0])


def scalar():
    a, b = end(), end()
    if R.random() < .8:
        a, b = min(a, b), max(a, b)
    return Interval(a, b, sortQ=False)


def power():
    x = scalar()
    p = R.choice([0, 1, 2, 3, 7, .5, 1.5, -.5, -1, -2, 2.25])
    # the logarithm of zero to a negative degree, improper bases: not judged here
    ok = isinstance(p, int) and p >= 0
    return event("pow", [()], "", lambda x, p: x ** p, (x, p), x=iv(x), p=num(p), ok=ok)


def divide():
    x = scalar()
    k = R.randrange(4)
    if k == 0:
        args = (scalar(), x)
    elif k == 1:
        args = (R.choice([1, 2.5, -3, 0]), x)
    elif k == 2:
        v = R.choice([0, 0.0, 2, -1.5])
        x = Interval(v, v)
        args = (scalar(), v)
    else:
        args = (scalar(), KA(x.a, x.b))
    return event("div", [()], "", lambda u, v: u / v, args, x=iv(x))


def root():
    """A line with a wide slope in one unknown: the range of the function over the box is known."""
    c, s = R.uniform(-3, 3), R.choice([1., 2., -1.5])
    lo = R.uniform(-4, 3)
    x0 = Interval(lo, lo + R.uniform(.1, 3))
    f = R.choice([ip.Krawczyk, ip.HansenSengupta])
    F = lambda x: s * (x - c)
    return event("root", [()], "", f, (F, lambda x: Interval(s, s), x0), x=iv(F(x0)))


KINDS = [square] * 5 + [rohn, rohn, neumaier, neumaier, optimum, optimum, wils, picture, picture, picture, matmul, meet, vertex, dist, ufunc, order, convert, nested, power, divide, root]
for i in range(scale(48, 260)):
    ev = [R.choice(KINDS)() for _ in range(14)]
    out.run("calls/%d/%d" % (SHARD, i), ev)
out.close()
