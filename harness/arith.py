"""Histories of scalar arithmetic on the real library (trace specification: Arith)."""
import itertools, math
from hlib import *
import operator

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("arith/%d" % SHARD)
out = Out()
KAUCHER = len(sys.argv) > 2 and sys.argv[2] == "kaucher"
OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv}
INP = {"add": operator.iadd, "sub": operator.isub, "mul": operator.imul, "div": operator.itruediv}
UFN = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide}


def double():
    """A finite double of many shapes."""
    k = R.randrange(12)
    s = R.choice([-1, 1])
    if k <= 2:
        return s * R.random() * 10 ** R.randint(-3, 3)
    if k == 3:
        return float(R.randint(-20, 20))
    if k == 4:
        return R.randint(-40, 40) / 8.0
    if k == 5:
        return round(R.uniform(-10, 10), 1)
    if k == 6:
        return s * math.ldexp(1 + R.random(), R.randint(-60, 60))
    if k == 7:
        return math.nextafter(float(R.randint(-8, 8)), R.choice([-1e9, 1e9]))
    if k == 8:
        return s * math.ldexp(1.0, R.randint(-30, 30))
    if k == 9:
        return s * (2.0 ** 53 - R.randint(0, 9)) * 2.0 ** -R.randint(0, 60)
    if k == 10:
        # products of these are near the least doubles
        return 0.0 if R.random() < .6 else s * math.ldexp(1 + R.random(), R.randint(-560, -450))
    return s * math.ldexp(1 + R.random(), R.randint(-300, 300)) if R.random() < .3 else s / R.randint(1, 99)


def interval():
    """A proper interval, in the representations users have."""
    k = R.randrange(9)
    a = double()
    if KAUCHER and R.random() < .6:
        b = double()
        if R.random() < .3:
            a, b = R.randint(-5, 5), R.randint(-5, 5)
        x = R.choice([Interval(max(a, b), min(a, b), sortQ=False), Interval([max(a, b), min(a, b)], sortQ=False),
                      Interval(min(a, b), max(a, b)).dual, KA(max(a, b), min(a, b))])
    elif k == 0:
        x = Interval(a, a)
    elif k == 1:
        x = Interval(a, a + abs(a) * R.random())
    elif k == 2:
        i, j = sorted(R.randint(-9, 9) for _ in "ab")
        if R.random() < .2:
            i, j = sorted(R.randint(-9, 9) * R.choice([1, 10 ** 8 + 7, 2 ** 53 + 1]) for _ in "ab")
        x = Interval(i, j)                                    # integer endpoints
    elif k == 3:
        x = Interval([min(a, -a), max(a, -a)])
    elif k == 4:
        i, j = sorted(R.randint(-9, 9) for _ in "ab")
        x = KA(i, j)                                          # proper value, Kaucher class
    elif k == 5:
        b = double()
        x = KA(min(a, b), max(a, b))
    elif k == 6:
        x = Interval(a, math.nextafter(a, math.inf))
    else:
        x = Interval(a, double())
    return x


def number():
    k = R.randrange(8)
    if k == 0:
        return R.randint(-9, 9)
    if k == 1:
        return np.float64(double())
    if k == 2:
        return R.choice([np.int64(R.randint(-9, 9)), R.randint(-9, 9) * R.choice([1, 10 ** 9 + 7, 2 ** 53 + 1, 3 ** 40])])
    if k == 3:
        return R.choice([3, 7, 10, 0.1, -3.0, 5.5, 1e-3, np.float64(3.0), -1, 1])
    if k == 4:
        return R.choice([True, np.float64(0.0), 0, 0.0])
    return double()


def lit(v):
    t = num(v)
    return [t, t, type(v).__name__]


EXTRA = ["dual", "pro", "opp", "inv", "dual", "xopp", "xinv", "pow"] if KAUCHER else ["abs", "pow"]
PROPS = {"dual": lambda x: x.dual, "pro": lambda x: x.pro, "opp": lambda x: x.opp, "inv": lambda x: x.inv,
         "xopp": lambda x: x + x.opp, "xinv": lambda x: x * x.inv}


def history(ident, steps):
    regs, ev = [], []
    for r in range(3):
        x = interval()
        regs.append(x)
        lo, hi = Fraction(float(x.a)), Fraction(float(x.b))
        t = R.choice([lo, hi, lo + (hi - lo) * Fraction(R.randint(0, 16), 16)])
        ev.append({"op": "load", "dst": r + 1, "r": enc(x), "pt": num(t), "regs": [iv(v) for v in regs]})
    for s in range(steps):
        op = R.choice(["add", "sub", "mul", "div", "add", "sub", "mul", "div", "mul", "div", "neg"] + EXTRA)
        i, j, k = R.randrange(3), R.randrange(3), R.randrange(3)
        e = {"op": op, "dst": k + 1, "ai": 0, "bi": 0, "n": 0, "forget": len(ev) % 7 == 6}
        x, y = regs[i], regs[j]
        e["a"], e["b"] = iv(x), iv(y)
        e["ai"], e["bi"] = i + 1, j + 1
        form = "interval op interval"
        if op in OPS:
            u = R.random()
            f = OPS[op]
            if u < .3:
                y = number()
                e["b"], e["bi"] = lit(y), 0
                form = "interval op " + type(y).__name__
            elif u < .6:
                x = number()
                e["a"], e["ai"] = lit(x), 0
                form = type(x).__name__ + " op interval"
                if R.random() < .2:
                    f = UFN[op]
                    form = "numpy " + form
            if f is OPS[op] and R.random() < .12:
                f = INP[op]
                form += " in place"
            e["r"] = obs(f, x, y)
        elif op in PROPS:
            e["r"] = obs(PROPS[op], x)
        elif op == "neg":
            e["r"] = obs(operator.neg, x)
        elif op == "abs":
            e["r"] = obs(abs, x)
        else:
            n = R.choice([0, 1, 2, 3, 4, 5, 6, 7, 2, 3, R.choice([8, 9, 10, 12, 15, 16, 17, 21, 32])])
            e["n"] = n
            e["a"], e["ai"] = iv(x), i + 1
            m = np.int64(n) if R.random() < .2 else n
            form = "power " + type(m).__name__
            if R.random() < .15:
                e["r"] = obs(pow, x, m)
            else:
                e["r"] = obs(operator.pow, x, m)
        e["form"] = form + (" KC"[1 + (e["a"][2] == "C")] if len(e["a"][2]) == 1 else "")
        if e["r"]["k"] == "iv" and not (op in ("inv", "xinv") and 0 in x.pro):
            # take the object itself as the register
            regs[k] = obj[0]
            if not all(math.isfinite(v) and abs(v) < 1e140 and (v == 0 or abs(v) > 1e-140) for v in (float(obj[0].a), float(obj[0].b))) \
                    or not (KAUCHER or obj[0].a <= obj[0].b):
                e["regs"] = [iv(v) for v in regs]
                ev.append(e)
                break
        elif e["r"]["k"] == "iv":
            e["r"] = {"k": "none"}                            # not defined: not used any further
        e["regs"] = [iv(v) for v in regs]
        ev.append(e)
    out.run(ident, ev)


obj = [None]
_enc = enc


def enc(x):
    obj[0] = x
    return _enc(x)


def obs(f, *a):
    ok, v = call(f, *a)
    return enc(v) if ok else v


# every small case once: all sign patterns, point and zero-touching intervals, every class
VALS = [-3, -1.1, -1, -0.0, 0, 0.1, 1, 2.5]


def grid():
    n = 0
    pairs = [(a, b) for a in VALS for b in VALS if (KAUCHER or a <= b) and not (a == b == 0)]
    mk = [lambda a, b: Interval(a, b, sortQ=False), lambda a, b: KA(a, b)]
    for (a, b), (c, d) in itertools.product(pairs, pairs):
        for cls in itertools.product((0, 1), repeat=2):
            n += 1
            if KAUCHER and (a <= b and c <= d or (cls[0] and a > b) or (cls[1] and c > d)):
                continue
            if n % SHARDS != SHARD or (not THOROUGH and (n // SHARDS) % 3 != SEED % 3 and cls != (0, 0)):
                continue
            x, y = mk[cls[0]](a, b), mk[cls[1]](c, d)
            ev = []
            regs = []
            for v in (x, y, Interval(1.0, 1.0)):
                regs.append(v)
                ev.append({"op": "load", "dst": len(regs), "r": _enc(v), "pt": num(v.a), "regs": [iv(w) for w in regs]})
            for op in OPS:
                r = obs(OPS[op], x, y)
                e = {"op": op, "dst": 3, "ai": 1, "bi": 2, "n": 0, "forget": False, "a": iv(x), "b": iv(y), "r": r}
                if r["k"] == "iv":
                    regs[2] = obj[0]
                e["regs"] = [iv(w) for w in regs]
                ev.append(e)
            out.run("grid/%s%s/%r,%r/%r,%r" % ("CK"[cls[0]], "CK"[cls[1]], a, b, c, d), ev)
    # numbers on either side
    nums = [-3, -1, 1, 2, 3, 7, 10, 0.1, -0.7, 1e300, 5e-324, np.float64(3.0), np.int64(7), np.float64(0.0), 0, 0.0, True, np.float64(-0.1)]
    for (a, b), v in itertools.product(pairs, nums):
        for c in (0, 1):
            n += 1
            if n % SHARDS != SHARD or (KAUCHER and (a <= b or c)):
                continue
            x = mk[c](a, b)
            ev, regs = [], []
            for w in (x, Interval(1.0, 1.0)):
                regs.append(w)
                ev.append({"op": "load", "dst": len(regs), "r": _enc(w), "pt": num(w.a), "regs": [iv(q) for q in regs]})
            for op in OPS:
                for left in (0, 1):
                    r = obs(OPS[op], v, x) if left else obs(OPS[op], x, v)
                    e = {"op": op, "dst": 2, "ai": 0 if left else 1, "bi": 1 if left else 0, "n": 0, "forget": True,
                         "a": lit(v) if left else iv(x), "b": iv(x) if left else lit(v), "r": r}
                    if r["k"] == "iv":
                        regs[1] = obj[0]
                    e["regs"] = [iv(q) for q in regs]
                    ev.append(e)
            out.run("grid/%s/%r,%r/%s %r" % ("CK"[c], a, b, type(v).__name__, v), ev)


grid()
for h in range(scale(350, 6000)):
    history("history/%d/%d" % (SHARD, h), 8)
out.close()
