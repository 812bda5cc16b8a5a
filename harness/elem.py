"""Elementary functions on scalars and arrays (trace specification: ElemTrace)."""
import math
from hlib import *

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("elem/%d" % SHARD)
out = Out()
FN = {"sqrt": (np.sqrt, ip.sqrt), "exp": (np.exp, ip.exp), "log": (np.log, ip.log), "sin": (np.sin, ip.sin),
      "cos": (np.cos, ip.cos), "sign": (ip.sign, ip.sign)}


def step(v, k):
    for _ in range(abs(k)):
        v = math.nextafter(v, math.inf if k > 0 else -math.inf)
    return v


def point(op):
    k = R.randrange(10)
    if op in ("sin", "cos"):
        if k < 4:       # next to an extremum or a zero
            return step(R.randint(-40 if k else -60000, 40 if k else 60000) * (math.pi / 2), R.randint(-3, 3))
        if k == 4:
            return R.uniform(-1e5, 1e5)
        if k == 5:
            return float(R.randint(-30, 30))
        if k == 6:
            return R.choice([0.0, -0.0, 1e-9, -1e-300, 5e-324, 1e-4])
        if k == 7:
            return R.uniform(-1, 1) * 10.0 ** R.randint(6, 16)
        return R.uniform(-10, 10)
    if op == "exp":
        if k == 0:
            return R.choice([709.0, 709.78, 709.79, 710.0, 1000.0, -708.0, -744.0, -746.0, -1e5, 5e4])
        if k == 1:
            return R.choice([0.0, 1.0, -1.0, 1e-17, -1e-17, 1e-300])
        return R.uniform(-20, 20) if k < 7 else R.uniform(-700, 700)
    if op == "sign":
        return R.choice([0.0, 0, -0.0, 1, -1, 2.5, -3.25, 1e-320, -1e-320, R.uniform(-4, 4)])
    # log, sqrt, real powers
    if k == 0:
        return R.choice([0.0, 1.0, 2.0, 4.0, 5e-324, 1e-310, 1e308, 1.7e308, 0, 1, 9])
    if k <= 2:
        return step(1.0, R.randint(-4, 4))
    if k <= 4 and op != "rpow":
        return R.uniform(-5, 5)
    if k == 5:
        return R.uniform(0, 1)
    return R.random() * 10.0 ** R.randint(-12, 12)


def interval(op):
    a = point(op)
    k = R.randrange(8)
    if k == 0:
        b = a
    elif k == 1:
        b = step(float(a), R.randint(1, 3))
    elif k == 2 and op in ("sin", "cos"):
        b = a + R.random() * R.choice([.1, 1, 3, 6, 7])
    else:
        b = point(op)
    if op == "rpow":
        a, b = abs(a), abs(b)
    improper = R.random() < .2
    if improper:
        a, b = max(a, b), min(a, b)
        if op in ("log", "sqrt", "rpow") and b <= 0:
            b = a
        if op == "sign":
            return Interval(a, b)
        return Interval(a, b, sortQ=False)
    x = Interval(a, b)
    return KA(x.a, x.b) if R.random() < .1 else x


def event(op, arg, f, p=None, form="scalar", shape=None):
    """arg: scalar interval, interval array, or plain number(s)"""
    def flat(v):
        if isinstance(v, AI):
            return [iv(t) for t in np.asarray(v.data).flat]
        if isinstance(v, (CA, KA)):
            return [iv(v)]
        return [[num(t), num(t), "N"] for t in np.asarray(v, dtype=float).flat]
    a = flat(arg)
    ok, r = call(f, arg)
    e = {"op": op, "a": a, "p": "0" if p is None else num(p), "form": form, "ash": list(np.shape(arg.data if isinstance(arg, AI) else [] if isinstance(arg, (CA, KA)) else arg)),
         "err": "", "r": [], "rsh": [], "after": []}
    if isinstance(arg, (CA, KA)):
        e["ash"] = []
    if not ok:
        e["err"] = r["t"]
        e["after"] = flat(arg)
        return e
    q = enc(r)
    if q["k"] == "iv":
        e["r"], e["rsh"] = [q["v"]], []
    elif q["k"] == "arr":
        e["r"], e["rsh"] = q["v"], q["sh"]
    else:
        e["err"] = "no interval: " + str(q.get("t", q["k"]))
    e["after"] = flat(arg)
    return e


EXPS = [0.5, 1.5, 2.5, -1, -2, -0.5, 1 / 3, 0.1, -3, 3.0, 2.0, 1.0]
for h in range(scale(700, 9000)):
    ev = []
    for _ in range(3):
        op = R.choice(["sin", "cos", "exp", "log", "sqrt", "sin", "cos", "sign", "rpow"])
        if op == "rpow":
            x, p = interval(op), R.choice(EXPS)
            if p < 0 and (x.a == 0 or x.b == 0 or min(x.a, x.b) < 1e-80):
                x = Interval(R.uniform(.1, 3), R.uniform(.1, 3))
            if max(x.a, x.b) > 1e90:
                x = Interval(1.5, 2.25)
            ev.append(event(op, x, lambda v: v ** p, p))
        elif R.random() < .8:
            f = R.choice(FN[op])
            ev.append(event(op, interval(op), f, form=f.__module__ or "numpy"))
        elif R.random() < .5:
            sh = R.choice([(2,), (3,), (2, 2), (1,), (2, 1, 2)])
            n = int(np.prod(sh))
            arr = AI(np.array([interval(op) for _ in range(n)], dtype=object).reshape(sh))
            ev.append(event(op, arr, R.choice(FN[op]), form="array"))
        else:
            v = R.choice([float(point(op)), [float(point(op)), float(point(op))], np.array([[float(point(op)), 1.0]]), int(R.randint(0, 5))])
            ev.append(event(op, v, FN[op][1], form="number"))
    out.run("elem/%d/%d" % (SHARD, h), ev)
out.close()
