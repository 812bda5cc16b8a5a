"""Construction and conversion of intervals (trace specification: Build)."""
import math
from hlib import *

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("build/%d" % SHARD)
out = Out()


def number(form=None):
    k = R.randrange(9) if form is None else form
    v = R.choice([R.uniform(-10, 10), R.randint(-9, 9) / 4, R.choice([-1, 1]) * math.ldexp(1 + R.random(), R.randint(-80, 80)), 0.1, 0.0])
    if k == 0:
        return R.randint(-9, 9)
    if k == 1:
        return np.float64(v)
    if k == 2:
        return np.int64(R.randint(-9, 9))
    if k == 3:
        return R.choice([-1, 1]) * R.choice([2 ** 26, 2 ** 26 + 1, 2 ** 53 + 1, 3 ** 40, 10 ** 15 + 1, 2 ** 62 + 1])
    if k == 4:
        return np.float32(v)
    return v


def scalar_pair():
    a = number()
    k = R.randrange(5)
    if k == 0:
        return a, a
    if k == 1 and isinstance(a, float):
        return a, math.nextafter(a, R.choice([-9e99, 9e99]))
    return a, number()


def make(args, l, r, **kw):
    el, er = enc(l), enc(r)
    res = obs(Interval, *args, **kw)
    return {"op": "make", "l": el, "r": er, "sort": kw.get("sortQ", True), "midrad": kw.get("midRadQ", False), "res": res,
            "l2": enc(l), "r2": enc(r)}


def flags():
    return R.choice([{}, {}, {"sortQ": False}, {"sortQ": True}, {"midRadQ": True}, {"midRadQ": True, "sortQ": False}])


def array(sh, ints=False):
    n = int(np.prod(sh))
    if ints:
        return np.array([R.randint(-9, 9) for _ in range(n)]).reshape(sh)
    return np.array([float(number(R.choice([1, 5]))) for _ in range(n)]).reshape(sh)


SHAPES = [(1,), (2,), (3,), (2, 2), (2, 3), (3, 1), (1, 2), (2, 1, 2), (2, 2, 2)]


def some_interval():
    a, b = scalar_pair()
    a, b = float(a), float(b)
    return R.choice([Interval(a, b), Interval(a, b, sortQ=False), KA(a, b), CA(min(a, b), max(a, b))])


for h in range(scale(500, 6000)):
    ev = []
    for _ in range(6):
        k = R.randrange(12)
        kw = flags()
        if k <= 2:
            a, b = scalar_pair()
            if isinstance(a, np.float32) or isinstance(b, np.float32):
                a, b = float(a), float(b)                 # numpy compares float32 with numbers in single precision
            if kw.get("midRadQ") and R.random() < .8:
                b = abs(b)
            ev.append(make((a, b), a, b, **kw))
        elif k == 3:
            a, b = scalar_pair()
            a, b = float(a), float(b)
            if kw.get("midRadQ") and R.random() < .8:
                b = abs(b)
            ev.append(make((R.choice([[a, b], (a, b), np.array([a, b])]),), a, b, **kw))
        elif k == 4:
            a = number()
            ev.append(make((a,), a, a, **({} if R.random() < .5 else {"sortQ": False})))
        elif k <= 7:
            sh = R.choice(SHAPES)
            ints = R.random() < .25
            L, Rr = array(sh, ints), array(sh, ints if R.random() < .8 else False)
            if kw.get("midRadQ") and R.random() < .85:
                Rr = abs(Rr)
            if R.random() < .5:
                ev.append(make((L, Rr) if R.random() < .6 else (L.tolist(), Rr.tolist()), L, Rr, **kw))
            else:
                st = np.stack((L, Rr), axis=-1)
                L, Rr = st[..., 0].copy(), st[..., 1].copy()
                ev.append(make((st if R.random() < .5 else st.tolist(),), L, Rr, **kw))
        elif k == 8:
            x = R.choice([some_interval(), AI(np.array([some_interval() for _ in range(4)], dtype=object).reshape(2, 2)),
                          AI(np.array([some_interval() for _ in range(3)], dtype=object))])
            e = enc(x)
            ev.append({"op": "keep", "x": e, "res": obs(R.choice([Interval, ip.asinterval]), x)})
        elif k == 9:
            x = R.choice([number(), array(R.choice(SHAPES)), array(R.choice(SHAPES), True), float(number())])
            y = x.tolist() if isinstance(x, np.ndarray) and R.random() < .5 else x
            ev.append({"op": "conv", "x": enc(x), "res": obs(ip.asinterval, y)})
        elif k == 10:
            xs = [R.choice([some_interval(), float(number()), R.randint(-5, 5)]) for _ in range(R.randint(2, 4))]
            ev.append({"op": "mixed", "xs": [enc(x) for x in xs], "res": obs(ip.asinterval, xs if R.random() < .5 else np.array(xs, dtype=object))})
        else:
            what = R.choice([lambda: Interval(1, 2, 3), lambda: Interval("a", "b"), lambda: Interval(1, "2"), lambda: Interval(0, -1, midRadQ=True),
                             lambda: Interval([1.0, -2.0], midRadQ=True), lambda: ip.asinterval("abc"), lambda: ip.asinterval(None),
                             lambda: Interval(1, -0.5, midRadQ=True, sortQ=False), lambda: Interval([1, 2], [1, -1], midRadQ=True)])
            ev.append({"op": "refuse", "res": obs(what)})
    out.run("build/%d/%d" % (SHARD, h), ev)
out.close()
