"""Calls that overlap: threads that take turns inside of the library's Python code by a
generated schedule, and calls made from call-backs (trace specification: OverlapTrace)."""
import copy, ctypes, hashlib, operator, re, threading
from hlib import *
import catalog as C
import pandas as pd
import mpmath, warnings

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("overlap/%d" % SHARD)
out = Out()
HOME = os.path.dirname(os.path.abspath(ip.__file__)) + os.sep
libm = ctypes.CDLL("libm.so.6")
MODES = {0: "near", 0x400: "down", 0x800: "up", 0xc00: "zero"}


def mode():
    return MODES.get(libm.fegetround(), "?")


def deep(x):
    if isinstance(x, ip.LinearConstraint):
        return {"k": "lc", "v": [deep(x.C), deep(x.b), deep(x.mu)]}
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return {"k": "frame", "v": deep(np.array(x.values, dtype=object))}
    if isinstance(x, (list, tuple)):
        return {"k": type(x).__name__, "v": [deep(e) for e in x]}
    return enc(x)


def short(x):
    d = deep(x)
    return d["k"] + " " + hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest()[:14]


def answer(f, args):
    try:
        return short(f(*args))
    except Exception as e:
        return "err " + type(e).__name__ + " " + re.sub(r"0x[0-9a-f]+", "", str(e))[:80]


class Table:
    """Whose turn it is."""
    def __init__(self, schedule, names, note):
        self.schedule, self.k, self.note = schedule, 0, note
        self.alive = dict.fromkeys(names, True)
        self.cond, self.turn, self.left, self.ticks = threading.Condition(), None, 0, 0
        self.handed = 0
        self.deal()

    def deal(self):
        for _ in range(len(self.schedule)):
            e = self.schedule[self.k % len(self.schedule)]
            self.k += 1
            if self.alive.get(e["t"]):
                self.turn, self.left = e["t"], e["q"]
                return
        rest = [t for t in self.alive if self.alive[t]]
        self.turn, self.left = (rest[0], 10 ** 9) if rest else (None, 0)

    def wait(self, t):
        """With the lock held: until it is the turn of t, or whoever has it does not move (it may wait for a lock)."""
        seen = self.ticks
        while self.turn != t:
            if not self.cond.wait(2) and seen == self.ticks:
                self.turn, self.left = t, 50
            seen = self.ticks

    def start(self, t):
        with self.cond:
            self.wait(t)

    def tick(self, t):
        self.ticks += 1
        if self.turn == t and self.left > 1:
            self.left -= 1
            return
        with self.cond:
            if self.turn == t:
                self.deal()
                if self.turn != t:
                    self.handed += 1
                    self.note(t)
                    self.cond.notify_all()
            self.wait(t)

    def end(self, t):
        with self.cond:
            self.alive[t] = False
            if self.turn == t:
                self.deal()
            self.ticks += 1
            self.cond.notify_all()


# ---- the calls ---------------------------------------------------------------------
def functions(n):
    F = {}

    def add(name, args, f):
        F[name] = (args.split(), f)
    for op in C.BIN:
        add(op.__name__ + " A P", "A P", op)
        add(op.__name__ + " M A", "M P", op)
    add("A @ V", "A V", operator.matmul)
    add("O @ A", "O A", operator.matmul)
    add("A ** 3", "A", lambda A: A ** 3)
    for p in ("mid", "rad", "mag", "mig", "khi", "dual", "opp", "vertex"):
        add("A." + p, "P", lambda A, p=p: getattr(A, p))
    for p in ("exp", "sin", "cos", "sign", "sqrt"):
        add(p, "P", getattr(ip, p))
    for p in ("subset", "proper_subset", "intersection", "dist", "contain"):
        add(p, "V Z", getattr(ip, p))
    add("compmat", "A", ip.compmat)
    add("diag", "A", ip.diag)
    add("asinterval", "lst", ip.asinterval)
    add("Interval", "pairs", Interval)
    add("repr", "A", repr)
    for nm, f, a in (("zeros", ip.zeros, [(2, 2)]), ("eye", ip.eye, [3]), ("Neumaier_system", ip.Neumaier_system, [3, 3.5]),
                     ("Shary_system", ip.Shary_system, [3]), ("Toft_system", ip.Toft_system, [3, .1, .2])):
        add(nm, "", lambda f=f, a=a: f(*a))
    for K in (ip.Tol, ip.Uni, ip.Uss):
        k = K.__name__
        add(k + ".value", "O c x w", lambda O, c, x, w, K=K: K.value(O, c, x, weight=w))
        add(k + ".constituent", "A b x", lambda A, b, x, K=K: K.constituent(A, b, x))
        add(k + ".maximize", "O c", lambda O, c, K=K: K.maximize(O, c, maxiter=12))
        add(k + ".maximize lc", "O c lc x", lambda O, c, l, x, K=K: K.maximize(O, c, linear_constraint=l, x0=x, maxiter=12))
        add(k + ".maximize A lc", "A b lc", lambda A, b, l, K=K: K.maximize(A, b, linear_constraint=l, maxiter=12))
    add("ChebNorm.value", "O c x", lambda O, c, x: ip.ChebNorm.value(O, c, x))
    add("find_mu", "lcc", lambda l: copy.deepcopy(l).find_mu(3.))
    add("Gauss", "A b", ip.Gauss)
    add("Gauss A2", "A2 b2", ip.Gauss)
    add("Gauss_Seidel", "A b", ip.Gauss_Seidel)
    add("Gauss_Seidel x0", "A b Z", lambda A, b, Z: ip.Gauss_Seidel(A, b, x0=Z))
    add("HBR", "A b", ip.HBR)
    add("Rohn", "O c", ip.Rohn)
    add("Rohn tol", "O c", lambda O, c: ip.Rohn(O, c, consistency="tol"))
    for m in (1, 3):
        add("PSS %d" % m, "A b", lambda A, b, m=m: ip.PSS(A, b, maxiter=m))
        add("PPS %d" % m, "A2 b2", lambda A, b, m=m: ip.PPS(A, b, maxiter=m))
    add("PSS over", "O c", lambda O, c: ip.PSS(O, c, maxiter=2))
    add("PSS box", "A b Z", lambda A, b, Z: ip.PSS(A, b, x0=Z, maxiter=2))
    add("Subdiff", "A b", ip.Subdiff)
    add("Neumaier", "O c x", lambda O, c, x: ip.Neumaier(O, c, x))
    add("ill-formed", "O b", lambda O, b: ip.Gauss(O, b))
    add("singular", "S b2", lambda S, b: ip.HBR(S, b))
    add("lineqs", "L2 l2", lambda L, l: ip.lineqs(L, l, show=False))
    add("lineqs unbounded", "L2 l2", lambda L, l: ip.lineqs(L[:3], l[:3] * 15, show=False))
    add("lineqs bounds", "L2 l2 B2", lambda L, l, B: ip.lineqs(L[:3], l[:3], show=False, bounds=B))
    add("lineqs3D", "L3 l3", lambda L, l: ip.lineqs3D(L, l, show=False))
    add("lineqs3D unbounded", "L3 l3", lambda L, l: ip.lineqs3D(L[:5], l[:5] * 20, show=False))
    for s in ("uni", "tol"):
        add("IntLinIncR2 " + s, "A2 b2", lambda A, b, s=s: ip.IntLinIncR2(A, b, show=False, consistency=s))
        add("IntLinIncR2 unbounded " + s, "S b2", lambda A, b, s=s: ip.IntLinIncR2(A, b, show=False, consistency=s))
    add("IntLinIncR2 bounds", "A2 b2 B2", lambda A, b, B: ip.IntLinIncR2(A, b, show=False, bounds=B))
    add("IntLinIncR3", "A3 b3", lambda A, b: ip.IntLinIncR3(A, b, show=False))
    add("IntLinIncR3 unbounded", "b2", lambda b: ip.IntLinIncR3(Interval([[-1, 0, 1]], [[1, 2, 2]]), Interval([b[0].a], [b[0].b]), show=False))
    for o in ("Tol", "Uni"):
        for norm in ("inf", "l1"):
            add("WILS %s %s" % (o, norm), "O c A", lambda X, y, T, o=o, norm=norm: model(ip.WILS, X, y, T, objective=o, norm=norm, maxiter=10))
            add("ISPAE %s %s" % (o, norm), "D y T", lambda X, y, T, o=o, norm=norm: model(ip.ISPAE, X, y, T, objective=o, norm=norm, maxiter=10))
    add("WILS constraint", "O c A lc", lambda X, y, T, l: model(ip.WILS, X, y, T, constraint=l, maxiter=10))
    return F


def model(M, X, y, T, **fit):
    m = M()
    r = m.fit(X, y, **fit) if M is ip.WILS else m.fit(X, y, 1, **fit)
    return [r, m.predict(T)]


_, quad, J = C.quad(random.Random(1))
GOAL = lambda v: (v[0] - .5) ** 2 + v[1] ** 2
OBJ = lambda v: (float(np.sum(np.abs(v - 1)) + (v ** 2).sum()), np.sign(v - 1) + 2 * v)
# calls with call-backs: a function of the hook that the call-back passes
HOSTS = {
    "Krawczyk": ("X2", lambda h: lambda X: ip.Krawczyk(lambda v: h(quad, v), J, X, maxiter=6)),
    "Krawczyk J": ("X2", lambda h: lambda X: ip.Krawczyk(quad, lambda v: h(J, v), X, maxiter=6)),
    "HansenSengupta": ("X2", lambda h: lambda X: ip.HansenSengupta(lambda v: h(quad, v), J, X, maxiter=6)),
    "globopt": ("X2", lambda h: lambda X: ip.globopt(lambda v: h(GOAL, v), X, maxiter=12)),
    "ralgb5": ("x", lambda h: lambda x: ip.ralgb5(lambda v: h(OBJ, v), x, maxiter=15)),
}
PLAIN = lambda f, v: f(v)


def pool(n):
    A, b = C.system(R, n)
    O, c = C.system(R, n + 1, n)
    A2, b2 = C.system(R, 2)
    A3, b3 = C.system(R, 3)
    D = pd.DataFrame({"p": list(C.around(R, [R.randint(-3, 3) / 2 for _ in range(4)], .25).data)})
    return {"A": A, "b": b, "O": O, "c": c, "A2": A2, "b2": b2, "A3": A3, "b3": b3, "D": D, "T": D.copy(deep=True).iloc[:3],
            "y": pd.Series(list(C.around(R, [R.randint(-5, 5) for _ in range(4)], 1).data)),
            "x": np.array([R.randint(-3, 3) for _ in range(n)], dtype=float), "w": np.array([R.choice([1., .5, 2.]) for _ in range(n + 1)]),
            "M": np.array([[R.randint(-3, 3) for _ in range(n)] for _ in range(n)], dtype=float),
            "P": C.array(R, (n, n), proper=False), "V": C.array(R, (n,)), "Z": Interval([-9] * n, [9] * n),
            "lc": ip.LinearConstraint(np.eye(n), lb=-np.ones(n) * R.choice([1, 2]), ub=np.ones(n) * R.choice([1, 3])),
            "lcc": ip.LinearConstraint(np.array([[R.randint(-2, 2) for _ in range(n)] for _ in range(n)]) + 3 * np.eye(n), ub=np.ones(n)),
            "S": Interval([[-1, 0], [1, -1]], [[1, 2], [2, 1]]), "L2": np.array([[1, 0], [0, 1], [-1, 0], [0, -1], [R.randint(-2, 2), R.randint(-2, 2)]], dtype=float),
            "l2": -np.array([2, 3, R.randint(1, 4), R.randint(1, 4), R.randint(0, 3)], dtype=float),
            "L3": np.vstack([np.eye(3), -np.eye(3)]), "l3": -np.array([R.randint(1, 3) for _ in range(6)], dtype=float),
            "B2": [[-7, -7], [7, 7]], "X2": Interval(np.array([.5, 1.]) - R.choice([2, 1]), np.array([.5, 1.]) + R.choice([2, 1])),
            "lst": [1, 2.5, C.interval(R)], "pairs": [[1, 2], [3.5, -1], [0, .1]]}


def world():
    return {"warning filters": repr(warnings.filters), "numpy errors": repr(np.geterr()), "mpmath precision": str(mpmath.mp.prec),
            "print options": repr(np.get_printoptions()), "output": repr(type(sys.stdout)), "random": short(np.random.get_state()[1])}


KINDS = ["IntLin", "lineqs", "maximize", "PSS", "PPS", "WILS", "ISPAE", "Rohn", "Gauss", "lc", "value", "Subdiff", "HBR", "A"]


def scene(n, schedule, ident):
    # a call with a dash works on other objects of the same sizes
    B, F = {**pool(n), **{k + "'": o for k, o in pool(n).items()}}, functions(n)
    names = sorted(F)
    threads = R.choice([2, 2, 3])
    plan = {}
    near = [f for f in names if R.choice(KINDS) in f] or names
    for t in range(1, threads + 1):
        calls = []
        for _ in range(R.choice([1, 2])):
            if R.random() < .25:
                h = R.choice(sorted(HOSTS))
                calls.append((h, R.randint(1, 4), R.choice(names) if R.random() < .6 else R.choice([h, h + "'", R.choice(sorted(HOSTS))])))
            else:
                calls.append((R.choice(near if R.random() < .6 else names), 0, ""))
        plan[t] = calls
    if R.random() < .6:     # the same call in two threads, or the same with other objects
        f, k, inner = plan[1][0]
        dash = R.choice(["", "'", "'"])
        plan[2][0] = f + dash, k, inner and inner + R.choice(["", "'"])

    def thing(f):
        g = f.rstrip("'")
        args, h = (HOSTS[g][0].split(), HOSTS[g][1](PLAIN)) if g in HOSTS else F[g]
        return [a + "'" if f.endswith("'") else a for a in args], h
    digest = lambda: {k: short(o) for k, o in B.items() if k in used}
    ev, keys, used = [], [], set()
    for calls in plan.values():
        for f, k, inner in calls:
            for g in (f, inner):
                if g and g not in keys:
                    keys.append(g)
                    used |= set(thing(g)[0])
    first = digest()
    for g in keys:
        args, f = thing(g)
        t0 = time.time()
        ev.append({"op": "alone", "t": 0, "key": g, "res": answer(f, [copy.deepcopy(B[a]) if a[:2] == "lc" else B[a] for a in args])})
        if time.time() - t0 > 1:
            return False
    w0 = world()
    moved = lambda: sorted(k for k, d in digest().items() if d != first[k])
    looks = [0]

    def note(t):
        looks[0] += 1
        e = {"op": "turn", "t": t, "moved": moved() if looks[0] < 40 or looks[0] % 20 == 0 else []}
        if looks[0] < 40 or e["moved"]:
            ev.append(e)
    table = Table(schedule, plan, note)

    def one(t, f, k, inner):
        args, g = thing(f)
        if k:
            count = [0]

            def hook(q, v):
                count[0] += 1
                if count[0] == k:
                    one(t, inner, 0, "")
                return q(v)
            g = HOSTS[f.rstrip("'")][1](hook)
        ev.append({"op": "begin", "t": t, "key": f})
        res = answer(g, [B[a] for a in args])
        ev.append({"op": "end", "t": t, "key": f, "res": res, "mode": mode()})

    def body(t):
        def local(frame, event, arg):
            if event == "line":
                table.tick(t)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(HOME) else None
        table.start(t)
        try:
            for f, k, inner in plan[t]:
                sys.settrace(trace)
                try:
                    one(t, f, k, inner)
                finally:
                    sys.settrace(None)
        finally:
            table.end(t)
    T = [threading.Thread(target=body, args=(t,), daemon=True) for t in plan]
    for q in T:
        q.start()
    limit = time.time() + 90
    for q in T:
        q.join(max(.1, limit - time.time()))
    stuck = any(q.is_alive() for q in T)
    w1 = world()
    ev.append({"op": "after", "t": 0, "moved": moved(), "world": sorted(k for k in w0 if w0[k] != w1[k])})
    out.run(ident, ev, handed=table.handed)
    return "stuck" if stuck else True


sys.stdout = io.StringIO()
for i, line in enumerate(open(os.environ["TURNS"])):
    if i % SHARDS != SHARD:
        continue
    out.pending("overlap/%d" % i)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if scene(R.choice([2, 2, 3]), json.loads(line), "overlap/%d" % i) == "stuck":
            break
    sys.stdout.seek(0)
    sys.stdout.truncate()
out.close()
if threading.active_count() > 1:
    os._exit(0)
