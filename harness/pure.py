"""Histories of calls over shared objects (trace specification: PureTrace).  The user
calls, writes into objects, replaces them by equal ones, and writes into results."""
import hashlib, locale, decimal, re, gc, copy, operator, tempfile, shutil
from hlib import *
import catalog as C
import pandas as pd
import cvxopt, mpmath
import matplotlib
import matplotlib.pyplot as plt

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("pure/%d" % SHARD)
out = Out()
scratch = tempfile.mkdtemp(prefix="pure_")
os.chdir(scratch)


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:14]


def deep(x):
    if isinstance(x, ip.LinearConstraint):
        return {"k": "lc", "v": [deep(x.C), deep(x.b), deep(x.mu)]}
    if isinstance(x, pd.DataFrame):
        return {"k": "df", "c": list(map(str, x.columns)), "i": list(map(str, x.index)), "v": deep(np.array(x.values, dtype=object))}
    if isinstance(x, pd.Series):
        return {"k": "series", "i": list(map(str, x.index)), "v": deep(np.array(x.values, dtype=object))}
    if isinstance(x, (list, tuple)):
        return {"k": type(x).__name__, "v": [deep(e) for e in x]}
    if isinstance(x, dict):
        return {"k": "dict", "v": [[str(k), deep(v)] for k, v in x.items()]}
    if isinstance(x, np.ndarray) and x.dtype != object:
        return dict(enc(x), dt=str(x.dtype), w=bool(x.flags.writeable))
    return enc(x)


def short(x):
    d = deep(x)
    if d["k"] in ("err", "other"):
        return d["k"] + " " + d.get("t", "") + " " + re.sub(r"0x[0-9a-f]+", "", d.get("m", ""))
    return d["k"] + " " + digest(d)


def world():
    fe = {k: v for k, v in np.geterr().items()}
    w = {"numpy errors": repr(fe), "numpy print options": repr(np.get_printoptions()), "numpy random state": digest(repr(np.random.get_state())),
         "random state": digest(repr(random.getstate())), "warning filters": digest(repr(warnings.filters)), "recursion limit": str(sys.getrecursionlimit()),
         "decimal context": repr(decimal.getcontext()), "mpmath precision": str(mpmath.mp.prec), "cvxopt options": repr(cvxopt.solvers.options),
         "matplotlib settings": digest(repr(sorted(matplotlib.rcParams.items(), key=str))), "working directory": ",".join(sorted(os.listdir("."))) + os.getcwd(),
         "environment": digest(sorted(os.environ.items())), "locale": repr(locale.setlocale(locale.LC_ALL)), "import path": digest(sys.path),
         "garbage collector": repr(gc.get_threshold()), "open windows": repr(plt.get_fignums()), "recursion hook": repr(sys.gettrace()),
         "integer text limit": str(sys.get_int_max_str_digits()), "error call-back": repr(np.geterrcall())}
    return {k: digest(re.sub(r"0x[0-9a-f]+", "", v))[:8] for k, v in w.items()}


class Boom(Exception):
    pass


def raising(f, k):
    n = [0]

    def g(*a):
        n[0] += 1
        if n[0] >= k:
            raise Boom("call %d" % k)
        return f(*a)
    return g


def fresh_model(M, X, y, T, fit, **init):
    m = M(**init)
    r = m.fit(X, y, **fit) if M is ip.WILS else m.fit(X, y, fit.get("order", 1), **{k: v for k, v in fit.items() if k != "order"})
    return [r, m.predict(T)]


def table(n):
    """name -> (names of the arguments, function, whether the result belongs to the caller)."""
    F = {}

    def add(name, args, f, own=True):
        F[name] = (args.split(), f, own)
    for op in C.BIN:
        add(op.__name__ + " A P", "A P", op)
        add(op.__name__ + " A s", "A s", op)
        add(op.__name__ + " M A", "M P", op)
        add(op.__name__ + " s t", "s t", op)
        add(op.__name__ + " 2 s", "s", lambda s, op=op: op(2, s))
        add(op.__name__ + " A zero", "A z", op)
        add(op.__name__ + " A O (shapes)", "A O", op)
    add("A @ x", "A x", operator.matmul)
    add("A @ V", "A V", operator.matmul)
    add("O @ A", "O A", operator.matmul)
    add("A @ O (shapes)", "A w", operator.matmul)
    add("-A", "A", operator.neg)
    add("abs A", "A", abs)
    add("A ** 2", "A", lambda A: A ** 2)
    add("s ** t fails", "s", lambda s: s ** None)
    for p in ["mid", "rad", "wid", "mag", "mig", "khi", "dual", "pro", "opp", "inv", "inf", "sup", "a", "b", "vertex"]:
        if p not in ("a", "b", "inf", "sup"):
            add("A." + p, "P", lambda A, p=p: getattr(A, p))
            add("s." + p, "s", lambda A, p=p: getattr(A, p))
        else:
            add("A." + p, "A", lambda A, p=p: getattr(A, p))
    for p in ["sqrt", "exp", "log", "sin", "cos", "sign"]:
        add(p + " P", "P", getattr(ip, p))
        add(p + " A", "A", getattr(ip, p))
        add(p + " s", "s", getattr(ip, p))
    for p in ["wid", "mid", "rad", "inf", "sup", "mag", "khi", "isnan"]:
        add("ip." + p, "A", getattr(ip, p))
    for p in ["subset", "superset", "proper_subset", "contain", "supercontain", "dist"]:
        add(p, "b V" if n == 0 else "V Z", getattr(ip, p))
    add("intersection", "V Z", ip.intersection)
    add("compmat", "A", ip.compmat)
    add("ip.diag", "A", ip.diag, False)
    add("diag of vector", "V", ip.diag)
    add("Interval(M, M2)", "M Mu", Interval)
    add("asinterval(list)", "lst", ip.asinterval)
    add("Interval(list)", "pairs", Interval)
    add("asinterval(x)", "x", ip.asinterval)
    add("in", "s t", operator.contains, False)
    for q in C.CMP:
        add(q.__name__, "A P", q)
    # functionals
    for K in (ip.Tol, ip.Uni, ip.Uss):
        k = K.__name__
        add(k + ".value", "O c x w", lambda O, c, x, w, K=K: K.value(O, c, x, weight=w))
        add(k + ".value no weight", "O c x", lambda O, c, x, K=K: K.value(O, c, x))
        add(k + ".constituent", "O c x w", lambda O, c, x, w, K=K: K.constituent(O, c, x, weight=w))
        add(k + ".maximize", "O c", lambda O, c, K=K: K.maximize(O, c))
        add(k + ".maximize x0 w", "O c x w", lambda O, c, x, w, K=K: K.maximize(O, c, x0=x, weight=w, maxiter=60))
        add(k + ".maximize lc", "O c lc", lambda O, c, l, K=K: K.maximize(O, c, linear_constraint=l, maxiter=60))
        add(k + ".maximize A lc x0 w", "A b lc x w", lambda A, b, l, x, w, K=K: K.maximize(A, b, linear_constraint=l, x0=x, weight=w[:len(b)], maxiter=60))
        add(k + ".maximize fails", "O b", lambda O, b, K=K: K.maximize(O, b))
    add("ChebNorm", "O c x w", lambda O, c, x, w: ip.ChebNorm.constituent(O, c, x, weight=w))
    add("ChebNorm.value", "O c x", lambda O, c, x: ip.ChebNorm.value(O, c, x))
    add("LinearConstraint", "M x v", lambda M, x, v: (lambda q: [q.C, q.b, q.mu])(ip.LinearConstraint(M, lb=np.minimum(x, v) - 1, ub=np.maximum(x, v) + 1)))
    add("linear_penalty", "x lc", lambda x, l: [l.largeCondQ(x, 0), l.C @ x])
    # linear solvers
    add("Gauss", "A b", ip.Gauss)
    add("Gauss_Seidel", "A b", ip.Gauss_Seidel)
    add("Gauss_Seidel x0", "A b Z", lambda A, b, Z: ip.Gauss_Seidel(A, b, x0=Z))
    add("Gauss_Seidel C", "A b E", lambda A, b, E: ip.Gauss_Seidel(A, b, C=E))
    add("HBR", "A b", ip.HBR)
    add("Rohn uni", "O c", lambda O, c: ip.Rohn(O, c))
    add("Rohn tol", "O c", lambda O, c: ip.Rohn(O, c, consistency="tol"))
    for m in (0, 3, 15):
        add("PSS %d" % m, "A b", lambda A, b, m=m: ip.PSS(A, b, maxiter=m))
        add("PSS over %d" % m, "O c", lambda O, c, m=m: ip.PSS(O, c, maxiter=m))
        add("PSS box %d" % m, "A b Z", lambda A, b, Z, m=m: ip.PSS(A, b, x0=Z, maxiter=m))
        add("PPS %d" % m, "A b", lambda A, b, m=m: ip.PPS(A, b, maxiter=m))
    add("PSS nu", "A b", lambda A, b: ip.PSS(A, b, nu=0, maxiter=10))
    add("PPS nu", "A b", lambda A, b: ip.PPS(A, b, nu=1, maxiter=10))
    add("Subdiff", "A b", ip.Subdiff)
    add("Subdiff P", "P V", lambda P, V: ip.Subdiff(P + 9 * np.eye(len(V)), V, maxiter=40))
    add("Neumaier", "O c x w", lambda O, c, x, w: ip.Neumaier(O, c, x))
    add("Neumaier w", "O c x w", lambda O, c, x, w: ip.Neumaier(O, c, x, w=w[:len(x)]))
    for f, nm in ((ip.Gauss, "Gauss"), (ip.Gauss_Seidel, "Gauss_Seidel"), (ip.HBR, "HBR"), (ip.PPS, "PPS")):
        add(nm + " fails", "O c", f)
        add(nm + " singular", "S b", f)
    add("Rohn tol empty", "A e", lambda A, e: ip.Rohn(A, e, consistency="tol"))
    # drawing
    add("lineqs", "L2 l2", lambda L, l: ip.lineqs(L, l, show=False))
    add("lineqs part", "L2 l2", lambda L, l: ip.lineqs(L[:2], l[:2], show=False))
    add("lineqs far", "L2 l2", lambda L, l: ip.lineqs(L[:2], l[:2] * 40, show=False))
    add("lineqs two corners", "L2 l2", lambda L, l: ip.lineqs(L[:3], l[:3] * 15, show=False))
    add("lineqs3D far", "L3 l3", lambda L, l: ip.lineqs3D(L[:5], l[:5] * 30, show=False))
    add("IntLinIncR3 unbounded", "S b2", lambda S, b: ip.IntLinIncR3(Interval([[-1, 0, 1], [1, -1, 0], [1, 1, 0]], [[1, 2, 2], [2, 1, 1], [2, 2, 1]]), Interval([b[0].a, b[1].a, -1.], [b[0].b, b[1].b, 1.]), show=False))
    add("lineqs bounds", "L2 l2 B2", lambda L, l, B: ip.lineqs(L[:3], l[:3], show=False, bounds=B))
    add("lineqs3D", "L3 l3", lambda L, l: ip.lineqs3D(L, l, show=False))
    add("lineqs3D part", "L3 l3", lambda L, l: ip.lineqs3D(L[:4], l[:4], show=False))
    add("lineqs3D fails", "L2 l2", lambda L, l: ip.lineqs3D(L, l, show=False))
    for s in ("uni", "tol"):
        add("IntLinIncR2 " + s, "A2 b2", lambda A, b, s=s: ip.IntLinIncR2(A, b, show=False, consistency=s))
        add("IntLinIncR2 unbounded " + s, "S b2", lambda A, b, s=s: ip.IntLinIncR2(A, b, show=False, consistency=s))
        add("IntLinIncR2 bounds " + s, "A2 b2 B2", lambda A, b, B, s=s: ip.IntLinIncR2(A, b, show=False, consistency=s, bounds=B))
    add("IntLinIncR2 fails", "L3 b2", lambda A, b: ip.IntLinIncR2(A, b, show=False))
    add("IntLinIncR2 bad consistency", "A2 b2", lambda A, b: ip.IntLinIncR2(A, b, show=False, consistency="no"))
    add("IntLinIncR3", "A3 b3", lambda A, b: ip.IntLinIncR3(A, b, show=False))
    add("IntLinIncR3 bad consistency", "A3 b3", lambda A, b: ip.IntLinIncR3(A, b, show=False, consistency="no"))
    add("shown lineqs", "L2 l2", shown(lambda L, l: ip.lineqs(L, l, show=True, size=(1, 1))))
    add("shown lineqs bounds", "L2 l2 B2", shown(lambda L, l, B: ip.lineqs(L[:3], l[:3], show=True, bounds=B, size=(1, 1))))
    add("shown IntLinIncR2", "A2 b2", shown(lambda A, b: ip.IntLinIncR2(A, b, show=True, size=(1, 1))))
    add("shown lineqs3D", "L3 l3", shown(lambda L, l: ip.lineqs3D(L, l, show=True, size=(1, 1))))
    # nonlinear
    _, quad, J = C.quad(random.Random(1))
    g2 = lambda v: (v[0] - .5) ** 2 + v[1] ** 2
    obj = lambda v: (float(np.sum(np.abs(v - 1)) + (v ** 2).sum()), np.sign(v - 1) + 2 * v)
    for s in ("Krawczyk", "HansenSengupta"):
        K = getattr(ip, s)
        add(s, "X2", lambda X, K=K: K(quad, J, X, maxiter=20))
        add(s + " limit", "X2", lambda X, K=K: K(quad, J, X, maxiter=1))
        for k in (1, 2, 5):
            add(s + " call-back fails %d" % k, "X2", lambda X, K=K, k=k: K(raising(quad, k), J, X, maxiter=20))
            add(s + " Jacobian fails %d" % k, "X2", lambda X, K=K, k=k: K(quad, raising(J, k), X, maxiter=20))
    add("globopt", "X2", lambda X: ip.globopt(g2, X, maxiter=25))
    add("globopt call-back fails", "X2", lambda X: ip.globopt(raising(g2, 7), X, maxiter=25))
    add("ralgb5", "x", lambda x: ip.ralgb5(obj, x, maxiter=40))
    add("ralgb5 call-back fails", "x", lambda x: ip.ralgb5(raising(obj, 6), x))
    # models
    for M in (ip.WILS, ip.ISPAE):
        k = M.__name__
        for o in ("Tol", "Uni"):
            for norm in ("inf", "l1"):
                add("%s %s %s" % (k, o, norm), "D y T" if M is ip.ISPAE else "O c A",
                    lambda X, y, T, M=M, o=o, norm=norm: fresh_model(M, X, y, T, dict(objective=o, norm=norm, maxiter=60)))
        for al, be in ((0, 1), (.5, 1), (.25, 2)):
            add(k + " weight %s %s" % (al, be), "D y T wd" if M is ip.ISPAE else "O c A w",
                lambda X, y, T, w, M=M, al=al, be=be: fresh_model(M, X, y, T, dict(weight=w, maxiter=40), alpha=al, beta=be))
        add(k + " x0", "O c A x" if M is ip.WILS else "D y T xd",
            lambda X, y, T, x, M=M: fresh_model(M, X, y, T, dict(x0=x, maxiter=60)))
        add(k + " fails", "O b A" if M is ip.WILS else "D c T", lambda X, y, T, M=M: fresh_model(M, X, y, T, dict(objective="no")))
    add("ISPAE order 2", "D y T", lambda X, y, T: fresh_model(ip.ISPAE, X, y, T, dict(order=2, maxiter=40)))
    add("WILS constraint", "O c A lc", lambda X, y, T, l: fresh_model(ip.WILS, X, y, T, dict(constraint=l, maxiter=60)))
    # arrays
    for nm, f, a in (("zeros", ip.zeros, [(2, 2)]), ("full", ip.full, [3, 1, 2]), ("eye", ip.eye, [3]), ("Neumaier_system", ip.Neumaier_system, [3, 3.5]),
                     ("Shary_system", ip.Shary_system, [3]), ("Toft_system", ip.Toft_system, [3, .1, .2]), ("Shary_system fails", ip.Shary_system, [3, 1])):
        add(nm, "", lambda f=f, a=a: f(*a))
    add("copy", "A", lambda A: A.copy())
    add("deepcopy", "A", copy.deepcopy)
    add("repr", "A", repr, False)
    add("iterate", "A", lambda A: [e.copy() for e in A])
    add("index fails", "V", lambda V: V[17])
    return F


def shown(f):
    def g(*a):
        try:
            return f(*a)
        finally:
            plt.close("all")
    return g


def pool(n):
    A, b = C.system(R, n)
    O, c = C.system(R, n + 1, n)
    A2, b2 = C.system(R, 2)
    A3, b3 = C.system(R, 3)
    x = np.array([R.randint(-3, 3) for _ in range(n)], dtype=float)
    M = np.array([[R.randint(-3, 3) for _ in range(n)] for _ in range(n)], dtype=float)
    D = pd.DataFrame({"p": list(C.around(R, [R.randint(-3, 3) / 2 for _ in range(5)], .25).data)})
    if R.random() < .5:
        D["q"] = list(C.around(R, [R.randint(-3, 3) / 2 for _ in range(5)], .25).data)
    L2 = np.array([[1, 0], [0, 1], [-1, 0], [0, -1], [R.randint(-2, 2), R.randint(-2, 2)]], dtype=R.choice([float, int]))
    B = {"A": A, "b": b, "O": O, "c": c, "x": x, "w": np.array([R.choice([1., .5, 2.]) for _ in range(n + 1)]), "M": M, "Mu": M + R.choice([.25, 1]),
         "v": np.array([R.randint(-4, 4) for _ in range(n)], dtype=float), "E": np.linalg.inv(np.array(A.mid, dtype=float)),
         "P": C.array(R, (n, n), proper=False), "V": C.array(R, (n,), proper=R.random() < .5), "Z": Interval([-9] * n, [9] * n),
         "s": C.interval(R), "t": C.interval(R, nz=True), "z": Interval(-1, 2),
         "lc": ip.LinearConstraint(np.eye(n), lb=-np.ones(n) * R.choice([1, 2]), ub=np.ones(n) * R.choice([1, 3]), mu=R.choice([None, None, 8.])),
         "S": Interval([[-1, 0], [1, -1]], [[1, 2], [2, 1]]), "e": Interval([5.] * n, [5.] * n),
         "L2": L2, "l2": np.array([-2, -3, -R.randint(1, 4), -R.randint(1, 4), -R.randint(0, 3)], dtype=L2.dtype),
         "L3": np.vstack([np.eye(3), -np.eye(3)]), "l3": -np.array([R.randint(1, 3) for _ in range(6)], dtype=float),
         "B2": R.choice([[[-7, -7], [7, 7]], np.array([[-6., -5.], [5., 8.]])]), "A2": A2, "b2": b2, "A3": A3, "b3": b3,
         "X2": Interval(np.array([.5, 1.]) - R.choice([2, 1]), np.array([.5, 1.]) + R.choice([2, 1])),
         "lst": [1, 2.5, C.interval(R)], "pairs": [[1, 2], [3.5, -1], [0, .1]],
         "D": D, "y": pd.Series(list(C.around(R, [R.randint(-5, 5) for _ in range(5)], 1).data)), "T": D.copy(deep=True).iloc[:3],
         "wd": np.array([R.choice([1., .5]) for _ in range(5)]), "xd": np.array([.5] * (1 + D.shape[1]))}
    return B


def writes(name, o):
    """Places of an object the user may write to: (read, write)."""
    if isinstance(o, AI):
        i = tuple(R.randrange(k) for k in o.shape)
        v = C.around(R, [R.randint(-4, 9)], .5)[0]
        return lambda: o[i], lambda q: o.__setitem__(i, q), v
    if isinstance(o, np.ndarray) and name not in ("w", "wd"):
        i = tuple(R.randrange(k) for k in o.shape)
        return lambda: o[i], lambda q: o.__setitem__(i, q), R.randint(-3, 5)
    if isinstance(o, np.ndarray):
        i = R.randrange(o.size)
        return lambda: o[i], lambda q: o.__setitem__(i, q), R.choice([.25, 1.5])
    if isinstance(o, ip.LinearConstraint):
        if R.random() < .3:
            return lambda: o.mu, lambda q: setattr(o, "mu", q), R.choice([None, 4.])
        i = R.randrange(len(o.b))
        return lambda: o.b[i], lambda q: o.b.__setitem__(i, q), R.choice([2., .5])
    if isinstance(o, list) and name == "lst":
        return lambda: o[0], lambda q: o.__setitem__(0, q), R.randint(2, 5)
    if isinstance(o, pd.Series):
        return lambda: o.iloc[0], lambda q: o.__setitem__(0, q), Interval(-1, R.randint(0, 2))
    return None


def renewed(o):
    if isinstance(o, list):
        return [renewed(e) for e in o]
    if isinstance(o, (AI, np.ndarray)) or hasattr(o, "iloc"):
        if isinstance(o, AI):
            d = np.empty(o.data.size, dtype=object)
            d[:] = [type(e)(e.a, e.b) for e in o.data.flat]
            return AI(d.reshape(o.shape))
        return o.copy(deep=True) if hasattr(o, "iloc") else copy.deepcopy(o)
    if isinstance(o, ip.LinearConstraint):
        return copy.deepcopy(o)
    if isinstance(o, (CA, KA)):
        return type(o)(o.a, o.b)
    return o


def parts(v):
    """The arrays of a result."""
    if isinstance(v, (AI, np.ndarray)):
        return [v]
    if isinstance(v, (list, tuple)):
        return [p for e in v for p in parts(e)]
    return []


def spoil(v):
    done = False
    for p in parts(v):
        if isinstance(p, AI):
            for i in np.ndindex(p.shape):
                p[i] = Interval(-77, 99)
                done = True
        elif p.size and p.flags.writeable:
            if p.dtype == object:
                p.flat[:] = [Interval(-77, 99)] * p.size
            else:
                p[...] = p.dtype.type(1) if p.dtype == bool else p.dtype.type(77)
            done = True
    if isinstance(v, list):
        v.append("spoiled")
        done = True
    return done


def heap(B):
    return {k: short(o) for k, o in B.items()}


def history(h):
    n = R.choice([2, 3])
    B, F = pool(n), table(n)
    names = sorted(F)
    own = R.sample(names, 9)
    # a few functions of the same kind, so that they meet each other's traces
    kind = R.choice(["drawing", "drawing", "maximize", "PSS", "PPS", "Gauss", "WILS", "ISPAE", "Krawczyk", "fails", "Rohn", "A.", "maximize lc", "Tol", "HBR", "ralg", "Neumaier", " A "])
    near = [f for f in names if (kind in f if kind != "drawing" else "lineqs" in f or "IntLin" in f)]
    own = own[:6] + R.sample(near, min(5, len(near))) if kind != "drawing" else own[:3] + R.sample(near, 8)
    used = set(a for f in own for a in F[f][0])
    B = {k: o for k, o in B.items() if k in used}
    held, values, undo = [], [], []
    w0 = world()
    ev = [{"op": "start", "heap": heap(B), "world": w0}]
    for i in range(scale(26, 40)):
        k = R.random()
        if k < .14:
            name = R.choice(sorted(set(a for f in own for a in F[f][0])) or ["A"])
            if undo and R.random() < .5:
                name, put, old = undo.pop()
                put(old)
            else:
                q = writes(name, B[name])
                if q is None:
                    continue
                get, put, v = q
                old = get()
                undo.append((name, put, old))
                put(v)
            ev.append({"op": "write", "o": name, "heap": heap(B), "held": [short(v) for v in values]})
        elif k < .22:
            name = R.choice(sorted(set(a for f in own for a in F[f][0])) or ["A"])
            B[name] = renewed(B[name])
            undo = [u for u in undo if u[0] != name]
            ev.append({"op": "renew", "o": name, "heap": heap(B), "held": [short(v) for v in values]})
        elif k < .34 and values:
            j = R.randrange(len(values))
            if not spoil(values[j]):
                continue
            ev.append({"op": "spoil", "i": j + 1, "heap": heap(B), "held": [short(v) for v in values]})
        else:
            f = R.choice(own)
            args, g, mine = F[f]
            ok, v = call(g, *[B[a] for a in args], limit=60)
            if not ok and v["t"] == "Timeout":
                break
            res = short(v) if ok else "err " + v["t"] + " " + re.sub(r"0x[0-9a-f]+", "", v["m"])
            keep = ok and mine and bool(parts(v)) and len(values) < 7
            if keep:
                values.append(v)
            ev.append({"op": "call", "f": f[6:] if f.startswith("shown ") else f, "args": args, "res": res, "own": f if keep else "",
                       "heap": heap(B), "held": [short(v) for v in values], "world": world(), "id": f})
    out.run("pure/%d/%d" % (SHARD, h), ev)


try:
    for h in range(scale(130, 700)):
        history(h)
finally:
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
out.close()
