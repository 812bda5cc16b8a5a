"""Characteristics of intervals and arrays (trace specification: Chars)."""
import math
from hlib import *

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("chars/%d" % SHARD)
out = Out()
MOD = {"inf": ip.inf, "sup": ip.sup, "mid": ip.mid, "rad": ip.rad, "wid": ip.wid, "mag": ip.mag, "khi": ip.khi}


def end():
    k = R.randrange(10)
    if k <= 1:
        return R.randint(-6, 6)
    if k == 2:
        return R.choice([0.0, -0.0, 0.5, -1.0])
    if k == 3:
        return R.choice([-1, 1]) * R.choice([1.7e308, 1.2e308, 5e-324, 1e-310])
    if k == 4:
        return R.choice([-1, 1]) * math.ldexp(1 + R.random(), R.randint(-200, 200))
    return R.uniform(-10, 10)


def interval():
    a = end()
    k = R.randrange(6)
    b = a if k == 0 else math.nextafter(a, 9e300) if k == 1 else end()
    if k == 2:
        b = -a
    x, y = min(a, b), max(a, b)
    if R.random() < .2:
        x, y = y, x
    return KA(x, y) if R.random() < .15 else Interval(x, y, sortQ=False)


def array(sh, mild=False):
    n = int(np.prod(sh))
    xs = [interval() for _ in range(n)]
    if mild:
        xs = [Interval(float(np.clip(x.a, -50, 50)), float(np.clip(x.b, -50, 50)), sortQ=False) for x in xs]
    return AI(np.array(xs, dtype=object).reshape(sh))


def flat(x):
    return [x] if isinstance(x, (CA, KA)) else list(x.data.flat)


def char(x):
    names = ["a", "b", "inf", "sup", "mid", "rad", "wid", "mag"]
    if all(v.a <= v.b for v in flat(x)):
        names.append("mig")
    khi = all(v.a != 0 or v.b != 0 for v in flat(x))
    e = {"op": "char", "x": enc(x), "prop": {n: obs(getattr, x, n) for n in names + ["khi"] * khi},
         "mod": {n: obs(f, x) for n, f in MOD.items() if n != "khi" or khi}}
    e["x2"] = enc(x)
    return e


def parts(x):
    p = {n: obs(getattr, x, n) for n in ("dual", "pro", "opp")}
    p["neg"] = obs(lambda: -x)
    if all(not (v.pro.a <= 0 <= v.pro.b) and 1e-290 < abs(v.a) < 1e290 and 1e-290 < abs(v.b) < 1e290 for v in flat(x)):
        p["inv"] = obs(getattr, x, "inv")
    return {"op": "parts", "x": enc(x), "prop": p}


SHAPES = [(1,), (2,), (3,), (2, 2), (2, 3), (1, 3), (3, 1), (2, 1, 2), (5,), (4, 4), (13,)]
for h in range(scale(450, 5000)):
    ev = []
    for _ in range(5):
        k = R.randrange(10)
        if k <= 1:
            ev.append(char(interval()))
        elif k <= 3:
            ev.append(char(array(R.choice(SHAPES))))
        elif k == 4:
            ev.append(parts(R.choice([interval(), array(R.choice(SHAPES)), array(R.choice(SHAPES))])))
        elif k == 5:
            xs = [R.choice([interval(), float(end()), end()]) for _ in range(R.randint(1, 4))]
            scalar = R.random() < .4
            if scalar:
                xs = [R.choice([float(end()), R.randint(-6, 6), np.float64(end())])]
            arg = xs[0] if scalar else np.array(xs, dtype=object) if R.random() < .5 else xs
            khi = all(w != 0 and math.isfinite(w) for v in xs for w in ((v.a, v.b) if isinstance(v, (CA, KA)) else (v,)))
            names = [n for n in MOD if n != "khi" or khi]
            ev.append({"op": "nums", "xs": [enc(x) for x in xs], "scalar": scalar, "mod": {n: obs(MOD[n], arg) for n in names}})
        elif k == 6:
            s = R.choice(SHAPES)
            x, y = R.choice([(array(s, 1), array(s, 1)), (interval(), interval()), (array(s, 1), Interval(-1.5, 2.0)), (Interval(0.25, 7.0), array(s, 1))])
            if isinstance(x, (CA, KA)) and isinstance(y, (CA, KA)):
                x, y = [Interval(float(np.clip(v.a, -50, 50)), float(np.clip(v.b, -50, 50)), sortQ=False) for v in (x, y)]
            if any(0 < abs(float(w)) < 1e-60 for v in (flat(x) + flat(y)) for w in (v.a, v.b)):
                continue                                  # powers would underflow
            order = R.choice([math.inf, math.inf, 1, 2, 3])
            ev.append({"op": "dist", "x": enc(x), "y": enc(y), "order": num(order), "r": obs(ip.dist, x, y, order) if order != math.inf or R.random() < .5 else obs(ip.dist, x, y)})
        elif k == 7:
            n = R.choice([1, 2, 3, 5])
            A = array((n, n))
            A = AI(np.vectorize(lambda v: v.pro, otypes=[object])(A.data))
            ev.append({"op": "compmat", "x": enc(A), "r": obs(ip.compmat, A)})
        elif k == 8:
            x = array(R.choice([(1,), (2,), (3,), (2, 2), (1, 2), (4,), (2, 1), (3, 1)]))
            ev.append({"op": "vertex", "x": enc(x), "r": obs(getattr, x, "vertex")})
        else:
            nan = float("nan")
            x = R.choice([interval(), Interval(nan, nan), array((2, 2)), AI(np.array([interval(), CA(nan, nan), CA(nan, 1.0)], dtype=object))])
            ev.append({"op": "isnan", "x": enc(x), "r": obs(ip.isnan, x)})
    out.run("chars/%d/%d" % (SHARD, h), ev)
out.close()
