"""Operations on interval arrays in all operand forms (trace specification: ArrayOps)."""
import itertools, math, operator
from hlib import *

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("arrays/%d" % SHARD)
out = Out()
OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv}
UF = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide}
SHAPES = [(1,), (2,), (3,), (2, 2), (2, 3), (1, 3), (3, 1), (2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2), (7,), (4, 5), (5,), (17,), (5, 1)]
PAIRS = []
for s, t in itertools.product(SHAPES, SHAPES):
    try:
        PAIRS.append((s, t, bool(np.broadcast_shapes(s, t))))
    except ValueError:
        PAIRS.append((s, t, False))
GOOD = [p for p in PAIRS if p[2]]


def end(nz=False):
    k = R.randrange(6)
    v = R.randint(-5, 5) if k == 0 else R.randint(-20, 20) / 8 if k == 1 else round(R.uniform(-4, 4), 1) if k == 2 else R.uniform(-9, 9)
    return v or (1 if nz else 0)


def interval(nz=False, proper=False):
    a, b = end(), end()
    if nz:
        s = R.choice([-1, 1])
        a, b = s * (abs(a) + .125), s * (abs(b) + .125)
    if R.random() < .15:
        b = a
    if proper or R.random() < .85:
        a, b = min(a, b), max(a, b)
    return KA(a, b) if R.random() < .15 else Interval(a, b, sortQ=False)


def array(sh, nz=False, proper=False):
    return AI(np.array([interval(nz, proper) for _ in range(int(np.prod(sh)))], dtype=object).reshape(sh))


def narray(sh, nz=False):
    n = int(np.prod(sh))
    if R.random() < .3:
        return np.array([int(end(nz)) or (1 if nz else 0) for _ in range(n)]).reshape(sh)
    return np.array([float(end(nz)) for _ in range(n)]).reshape(sh)


def number(nz=False):
    v = end(nz)
    return R.choice([v, v, float(v), np.float64(v), np.int64(int(v) or (1 if nz else 0))])


def done(op, x, y, r, **k):
    return dict({"op": op, "n": 0, "sh": [], "r": r}, **k)


def event(op, f, x, y, **k):
    ex, ey = enc(x), enc(y)
    r = obs(f)
    return dict({"op": op, "n": 0, "sh": [], "x": ex, "y": ey, "r": r, "x2": enc(x), "y2": enc(y)}, **k)


for h in range(scale(420, 5000)):
    ev = []
    for _ in range(5):
        k = R.randrange(12)
        if k <= 5:
            op = R.choice(list(OPS))
            nz = op == "div" and R.random() < .9
            s, t, ok = R.choice(GOOD) if R.random() < .93 else R.choice(PAIRS)
            form = R.randrange(9)
            x, y = [(lambda: (array(s), array(t, nz))), (lambda: (array(s), interval(nz))), (lambda: (interval(), array(s, nz))), (lambda: (array(s), number(nz))),
                    (lambda: (number(), array(s, nz))), (lambda: (array(s), narray(t, nz))), (lambda: (narray(s), array(t, nz))),
                    (lambda: (narray(s), interval(nz))), (lambda: (interval(), narray(s, nz)))][form]()
            f = UF[op] if R.random() < .2 else OPS[op]
            a, b = x, y
            if R.random() < .3 and isinstance(x, np.ndarray) and isinstance(y, AI) and f is OPS[op]:
                a = x.tolist()
            if R.random() < .3 and isinstance(y, np.ndarray) and isinstance(x, AI) and f is OPS[op]:
                b = y.tolist()
            ev.append(event(op, lambda: f(a, b), x, y, form="%s %s %s" % (type(a).__name__, f.__name__, type(b).__name__)))
        elif k == 6:
            x = array(R.choice(SHAPES), proper=True)
            op = R.choice(["neg", "abs", "pow", "pow"])
            n = R.randint(0, 5)
            ev.append(event(op, {"neg": lambda: -x, "abs": lambda: abs(x), "pow": lambda: x ** n}[op], x, x, n=n))
        elif k <= 8:
            n, m, p = [R.choice([1, 2, 3, 1, 2, 3, 5, 6]) for _ in range(3)]
            q = m if R.random() < .92 else m + 1
            s, t = R.choice([((n, m), (q, p)), ((n, m), (q,)), ((m,), (q, p)), ((m,), (q,)), ((n, m), (q, p))])
            if R.random() < .3:      # stacks of matrices: the leading axes broadcast
                g, u = R.choice([(2, 2), (1, 2), (2, 1), (3, 3), (2, 2), (2, 3)])
                s, t = R.choice([((g, n, m), (u, q, p)), ((g, n, m), (q, p)), ((n, m), (u, q, p)), ((g, n, m), (q,)), ((m,), (u, q, p)),
                                 ((g, 1, n, m), (u, q, p)), ((n, m), (1, u, q, p))])
            x, y = R.choice([lambda: (array(s), array(t)), lambda: (array(s), array(t)), lambda: (array(s), narray(t)), lambda: (narray(s), array(t))])()
            f = np.matmul if R.random() < .25 else operator.matmul
            a, b = x, y
            if R.random() < .3 and isinstance(x, np.ndarray) and f is operator.matmul:
                a = x.tolist()
            if R.random() < .3 and isinstance(y, np.ndarray) and f is operator.matmul:
                b = y.tolist()
            ev.append(event("matmul", lambda: f(a, b), x, y, form="%s @ %s" % (type(a).__name__, type(b).__name__)))
        elif k == 9:
            x = array(R.choice(SHAPES))
            op = R.choice(["T", "reversed", "sum"])
            if op == "sum":
                x = array(R.choice([(1,), (2,), (4,)]))
            f = {"T": lambda: x.T, "reversed": lambda: AI(np.array(list(reversed(x)), dtype=object).reshape(x.shape)), "sum": lambda: sum(x)}[op]
            ev.append(event(op, f, x, x))
        elif k == 10:
            s = R.choice(SHAPES)
            n = int(np.prod(s))
            t = R.choice([u for u in [(n,), (1, n), (n, 1), s[::-1], (2, n // 2), (n // 2, 2), (n + 1,)] if all(u)])
            x = array(s)
            ev.append(event("reshape", lambda: x.reshape(t), x, x, sh=list(t)))
        else:
            x = array(R.choice([(1,), (2,), (3,), (2, 2), (2, 3), (3, 2), (3, 3)]))
            q = R.randint(-1, 1) if x.ndim == 2 else R.randint(-2, 2)
            if x.ndim == 2 and np.diag(np.ones(x.shape), q).size == 0:
                q = 0
            ev.append(event("diag", lambda: ip.diag(x, q) if q or R.random() < .5 else ip.diag(x), x, x, n=q))
    out.run("arrays/%d/%d" % (SHARD, h), ev)
out.close()
