"""Constructors of arrays and test systems (trace specification: SysTrace)."""
from hlib import *

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("systems/%d" % SHARD)
out = Out()


def real(lo=-3, hi=3):
    return R.choice([R.randint(int(lo), int(hi)), R.uniform(lo, hi), round(R.uniform(lo, hi), 2), R.choice([.1, .25, 1e-9, 1 / 3])])


def unit():
    return R.choice([0, 0.0, 1, 1.0, .5, .25, R.random(), round(R.random(), 2), -.25, 1.25, 2 ** -40, 1 + 2 ** -52, np.float64(.75), -2 ** -60])


def ends():
    a, b = R.choice([R.uniform(-9, 9), R.randint(-5, 5), R.randint(-9, 9) / 4]), R.choice([R.uniform(-9, 9), R.randint(-5, 5)])
    return a, b


def opt(name, v, kw):
    """A keyword left out when v is None."""
    if v is not None:
        kw[name] = v


def form(a, names):
    """Some trailing arguments by name."""
    k = R.randint(1, len(a))
    return a[:k], dict(zip(names[k:], a[k:]))


SHAPES = [1, 2, 4, (1,), (3,), (2, 2), (2, 3), (3, 1), (2, 1, 2), [2, 2], (1, 1), np.int64(3)]


def shape(sh):
    return [int(k) for k in sh] if isinstance(sh, (tuple, list)) else [int(sh)]


def one():
    k = R.randrange(9)
    if k == 0:
        sh = R.choice(SHAPES)
        return {"op": "zeros", "sh": shape(sh), "res": obs(ip.zeros, sh)}
    if k == 1:
        sh = R.choice(SHAPES)
        lo, hi = ends()
        if R.random() < .3:
            n = shape(sh)[-1]
            lo, hi = np.array([ends()[0] for _ in range(n)]), np.array([ends()[1] for _ in range(n)])
            if R.random() < .3:
                lo = 1.5
        return {"op": "full", "sh": shape(sh), "lo": enc(lo), "hi": enc(hi), "res": obs(ip.full, sh, lo, hi)}
    if k == 2:
        n, m, j = R.randint(1, 5), R.choice([None, R.randint(1, 5)]), R.randint(-5, 5)
        kw = {}
        opt("M", m, kw)
        if j or R.random() < .5:
            kw["k"] = j
        return {"op": "eye", "n": n, "m": n if m is None else m, "j": kw.get("k", 0), "res": obs(ip.eye, n, **kw)}
    if k == 3:
        sh = R.choice([(1,), (2,), (4,), (1, 1), (2, 2), (2, 3), (3, 2), (4, 4), (1, 3), (2, 2, 2)])
        d = np.empty(int(np.prod(sh)), dtype=object)
        d[:] = [Interval(*ends(), sortQ=False) for _ in range(d.size)]
        x = AI(d.reshape(sh))
        j = R.randint(-2, 2)
        if len(sh) == 2 and not -sh[0] < j < sh[1]:
            j = 0
        return {"op": "diag", "x": enc(x), "j": j, "res": obs(ip.diag, x, k=j) if j or R.random() < .5 else obs(ip.diag, x)}
    if k in (4, 5):
        n, th = R.choice([1, 2, 3, 4, 5, 6, 11]), R.choice([R.randint(0, 7), R.uniform(0, 7), 3.5, real(0, 9)])
        lo, hi = R.choice([None, real()]), R.choice([None, real()])
        if R.random() < .3:
            lo = R.choice([0, 0.0, -0.0])
        kw = {}
        opt("infb", lo, kw)
        opt("supb", hi, kw)
        e = {"op": "neumaier", "n": n, "theta": num(th), "lo": num(-1 if lo is None else lo), "hi": num(1 if hi is None else hi)}
        e["res"] = obs(ip.Neumaier_system, n, th, **kw) if R.random() < .7 else obs(ip.Neumaier_system, n, th, lo, hi)
        return e
    if k in (6, 7):
        n = R.choice([1, 2, 3, 4, 5, 6, 11])
        N = R.choice([None, None, n - 1, n, n + 2.5, n - 1.5, n - 2, n - 1 + 2 ** -30, n - 1 - 2 ** -30, 0, real(0, 8)])
        al, be = R.choice([None, unit()]), R.choice([None, unit()])
        if al is not None and R.random() < .2:
            be = al
        if al is not None and be is not None and al > be and R.random() < .7:
            al, be = be, al
        kw = {}
        opt("N", N, kw)
        opt("alpha", al, kw)
        opt("beta", be, kw)
        e = {"op": "shary", "n": n, "N": num(n if N is None else N), "alpha": num(.23 if al is None else al), "beta": num(.35 if be is None else be)}
        e["res"] = obs(ip.Shary_system, n, **kw)
        return e
    n, r, q = R.choice([1, 2, 3, 4, 5, 6, 11]), R.choice([0, real(0, 2), unit()]), R.choice([0, real(0, 2), unit()])
    return {"op": "toft", "n": n, "r": num(r), "q": num(q), "res": obs(ip.Toft_system, n, r, q) if R.random() < .7 else obs(ip.Toft_system, n, R=q, r=r)}


for h in range(scale(150, 4000)):
    out.run("systems/%d/%d" % (SHARD, h), [one() for _ in range(8)])
out.close()
