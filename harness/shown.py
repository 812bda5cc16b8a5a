"""Texts and exports of intervals and arrays (trace specification: ShownTrace)."""
import ast, copy, math, re
from hlib import *

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("shown/%d" % SHARD)
out = Out()
SHAPES = [(1,), (2,), (3,), (5,), (2, 2), (2, 3), (1, 3), (3, 1), (1, 1), (2, 1, 2), (9,), (4, 5), (2, 2, 2), (30,)]


def end():
    k = R.randrange(9)
    s = R.choice([-1, 1])
    if k == 0:
        return R.randint(-9, 9)
    if k == 1:
        return R.choice([0.0, 1e5, 99999.5, 999999.5, 1e6, 1e-4, 9.999995e-5, 1e-5, .1, 1 / 3, 123456.5, 1234567., 1e16, 2e22])
    if k == 2:
        return s * math.ldexp(1 + R.random(), R.randint(-1000, 1000))
    if k == 3:
        return s * (R.randint(100000, 999999) + .5) * 10. ** R.randint(-12, 12)
    if k == 4:
        return s * math.nextafter(10. ** R.randint(-8, 12), R.choice([0., 1e300]))
    if k == 5 and R.random() < .3:
        return s * math.inf
    return R.uniform(-10, 10) * 10. ** R.randint(-3, 7)


def interval():
    a, b = end(), end()
    if R.random() < .15:
        b = a
    if R.random() < .8:
        a, b = min(a, b), max(a, b)
    return KA(a, b) if R.random() < .15 else Interval(a, b, sortQ=False)


def array(sh):
    d = np.empty(int(np.prod(sh)), dtype=object)
    d[:] = [interval() for _ in range(d.size)]
    return AI(d.reshape(sh))


def exponent(x):
    x = float(x)
    if x == 0 or not math.isfinite(x):
        return 0
    x = abs(Fraction(x))
    e = int(math.floor(math.log10(float(x))))
    while Fraction(10) ** e > x:
        e -= 1
    while Fraction(10) ** (e + 1) <= x:
        e += 1
    return e


def number(t):
    t = t.strip()
    if t in ("inf", "-inf", "nan"):
        return t
    return num(Fraction(t))


def pair(t):
    m = re.fullmatch(r"'?\[([^,\[\]]+), ([^,\[\]]+)\]'?", t)
    return [number(m[1]), number(m[2])]


def read(t, scalar):
    """-> shape, pairs"""
    if scalar:
        return [], [pair(t)]
    m = re.fullmatch(r"\s*Interval\((.*)\)\s*", t, re.S)
    v = ast.literal_eval(m[1].strip().rstrip(","))
    sh, flat = [], v
    while isinstance(flat[0], list):
        sh.append(len(flat))
        assert len({len(x) for x in flat}) == 1
        flat = [y for x in flat for y in x]
        if len(sh) > 1:
            sh[-1] //= math.prod(sh[:-1])
    sh.append(len(flat) // math.prod(sh))
    return sh, [pair(x) for x in flat]


def show(x):
    scalar = isinstance(x, (CA, KA))
    f = R.choice([repr, str, lambda y: "%s" % (y,), lambda y: "{}".format(y)])
    e = {"op": "show", "x": enc(x), "sh": [], "t": [], "err": ""}
    flat = [x] if scalar else list(x.data.flat)
    e["ex"] = [[exponent(v.a), exponent(v.b)] for v in flat]
    ok, t = call(f, x)
    try:
        e["sh"], e["t"] = read(t, scalar)
    except Exception as err:
        e["err"] = "%s: %r" % (type(err).__name__, t)
    e["x2"] = enc(x)
    return e


def gather(it, sh):
    flat = []
    for row in it:
        flat.extend([row] if isinstance(row, (CA, KA)) else np.array(row, dtype=object).ravel())
    d = np.empty(len(flat), dtype=object)
    d[:] = flat
    return AI(d.reshape(sh))


EXPORTS = {"array": lambda x: np.array(x), "object": lambda x: np.array(x, dtype=object), "list": lambda x: list(x), "iter": lambda x: [v for v in x],
           "float": lambda x: x.to_float(), "copy": lambda x: x.copy(), "deepcopy": copy.deepcopy, "asinterval": lambda x: ip.asinterval(np.array(x)),
           "rebuild": lambda x: AI(x.data), "asinterval list": lambda x: ip.asinterval(list(x.data.flat)).reshape(x.shape)}


def export(x):
    how = R.choice(list(EXPORTS))
    e = {"op": "export", "how": how, "x": enc(x)}
    ok, r = call(EXPORTS[how], x)
    e["res"] = enc(gather(r, x.shape) if ok and how in ("list", "iter") else r)
    if ok and how not in ("list", "iter"):
        call(lambda: r.__setitem__((0,) * len(x.shape), Interval(-77., 78.)))
    e["x2"] = enc(x)
    return e


for h in range(scale(120, 2500)):
    ev = []
    for _ in range(6):
        k = R.random()
        if k < .3:
            ev.append(show(interval()))
        elif k < .6:
            ev.append(show(array(R.choice(SHAPES))))
        elif k < .68:
            x = interval()
            e = enc(x)
            how = R.choice(["copy", "copy", "interval", "asinterval"])
            f = {"copy": lambda: R.choice([x.copy(), x.copy(deep=True)]), "interval": lambda: Interval(x), "asinterval": lambda: ip.asinterval(x)}[how]
            ev.append({"op": "export", "how": how, "x": e, "res": obs(f), "x2": enc(x)})
        elif k < .95:
            ev.append(export(array(R.choice(SHAPES))))
        else:
            x = array(R.choice(SHAPES))
            ev.append({"op": "ranges", "x": enc(x), "res": enc([list(r) for r in x.ranges]), "x2": enc(x)})
    out.run("shown/%d/%d" % (SHARD, h), ev)
out.close()
