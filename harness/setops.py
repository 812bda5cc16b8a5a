"""Order, membership, inclusion, intersection (trace specification: SetOps)."""
import itertools, math, operator
from hlib import *

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("setops/%d" % SHARD)
out = Out()
CMP = {"lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne}
UF = {"lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal, "eq": np.equal, "ne": np.not_equal}
SET = {"subset": ip.subset, "superset": ip.superset, "psubset": ip.proper_subset, "psuperset": ip.proper_superset,
       "contain": ip.contain, "supercontain": ip.supercontain}


class Pool:
    """A few values that meet each other: equal, adjacent, far."""
    def __init__(self):
        base = [R.choice([0.0, -0.0, 1.0, -2.5, R.uniform(-5, 5), R.uniform(-1, 1) * 10.0 ** R.randint(-20, 20)]) for _ in range(2)]
        self.v = base + [math.nextafter(base[0], math.inf), math.nextafter(base[0], -math.inf), float(R.randint(-3, 3)), R.randint(-3, 3), base[1] + 1]
        if R.random() < .1:
            self.v += [math.inf, -math.inf]
        if R.random() < .05:
            self.v += [math.nan]

    def num(self):
        v = R.choice(self.v)
        k = R.randrange(5)
        return np.float64(v) if k == 0 else int(v) if k == 1 and math.isfinite(v) and abs(v) < 1e6 else np.int64(int(v)) if k == 2 and math.isfinite(v) and abs(v) < 1e6 else v

    def iv(self, proper=False):
        a, b = R.choice(self.v), R.choice(self.v)
        if proper or R.random() < .8:
            a, b = min(a, b), max(a, b)
        k = R.randrange(4)
        if k == 0:
            return KA(a, b)
        if k == 1 and a <= b:
            return CA(a, b)
        return Interval(a, b, sortQ=False)

    def arr(self, sh, proper=False):
        n = int(np.prod(sh))
        return AI(np.array([self.iv(proper) for _ in range(n)], dtype=object).reshape(sh))

    def narr(self, sh):
        return np.array([float(R.choice(self.v)) for _ in range(int(np.prod(sh)))]).reshape(sh)


SHAPES = [(2,), (3,), (1,), (2, 2), (2, 3), (1, 3), (2, 1), (2, 1, 2), (1, 2, 2), (5,), (4, 4), (13,), (4, 1)]
PAIRS = []
for s, t in itertools.product(SHAPES, SHAPES):
    try:
        np.broadcast_shapes(s, t)
        PAIRS.append((s, t))
    except ValueError:
        pass


def event(op, f, x, y):
    ex, ey = enc(x), enc(y)
    r = obs(f, x, y)
    return {"op": op, "x": ex, "y": ey, "r": r, "x2": enc(x), "y2": enc(y)}


for h in range(scale(700, 8000)):
    P = Pool()
    ev = []
    for _ in range(8):
        k = R.randrange(10)
        if k <= 4:
            op = R.choice(list(CMP))
            s, t = R.choice(PAIRS)
            x, y = R.choice([(P.iv(), P.iv()), (P.iv(), P.iv()), (P.num(), P.iv()), (P.iv(), P.num()), (P.arr(s), P.arr(t)), (P.arr(s), P.iv()),
                             (P.iv(), P.arr(s)), (P.num(), P.arr(s)), (P.arr(s), P.num()), (P.arr(s), P.narr(t)), (P.narr(s), P.arr(t)),
                             (P.narr(s), P.iv()), (P.iv(), P.narr(s))])
            f = UF[op] if R.random() < .15 else CMP[op]
            ev.append(event(op, f, x, y))
        elif k <= 6:
            op = R.choice(list(SET))
            s, t = R.choice(PAIRS)
            x, y = R.choice([(P.iv(), P.iv()), (P.iv(), P.iv()), (P.arr(s), P.arr(t)), (P.arr(s), P.iv()), (P.iv(), P.arr(s)), (P.arr(s), P.arr(s))])
            if R.random() < .3 and isinstance(x, AI):        # one that is included more often
                y = AI(np.array([Interval(min(v.a, v.b) - R.choice([0, 1]), max(v.a, v.b) + R.choice([0, 1])) for v in x.data.flat], dtype=object).reshape(x.shape))
            ev.append(event(op, SET[op], x, y))
        elif k == 7:
            y = R.choice([P.iv(), P.arr(R.choice(SHAPES))])
            x = R.choice([P.num(), P.iv()])
            ev.append(event("in", lambda a, b: a in b, x, y))
        else:
            s = R.choice(SHAPES)
            c = [v for v in P.v if v == v]
            P.v = c
            x, y = R.choice([(P.iv(1), P.iv(1)), (P.iv(1), P.iv(1)), (P.arr(s, 1), P.arr(s, 1)), (P.arr(s, 1), P.iv(1)), (P.iv(1), P.arr(s, 1)),
                             (P.arr(s, 1), P.num()), (P.num(), P.iv(1)), (P.narr(s), P.arr(s, 1))])
            ev.append(event("meet", ip.intersection, x, y))
    out.run("setops/%d/%d" % (SHARD, h), ev)
out.close()
