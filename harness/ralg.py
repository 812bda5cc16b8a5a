"""Executions of ralgb5 on objectives of every kind; each call of the objective is recorded
(trace specification: RalgTrace)."""
from hlib import *

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("ralg/%d" % SHARD)
out = Out()
NP = np.random.RandomState(SEED * 100 + SHARD)


class Boom(Exception):
    pass


def objective(m):
    k = R.randrange(12)
    c = NP.randint(-3, 4, m).astype(float)
    if k == 0:                                            # maximum of affine pieces
        P, q = NP.randint(-4, 5, (R.randint(m + 1, max(6, m + 2)), m)).astype(float), NP.randint(-4, 5, 12)
        def f(x):
            v = P @ x + q[:len(P)]
            i = int(np.argmax(v))
            return v[i], P[i]
    elif k == 1:                                          # quadratic, badly scaled now and then
        s = 10. ** NP.randint(-3, 4, m)
        f = lambda x: (float(np.sum(s * (x - c) ** 2)), 2 * s * (x - c))
    elif k == 2:                                          # distances
        s = NP.randint(1, 5, m)
        f = lambda x: (float(np.sum(s * np.abs(x - c))), s * np.sign(x - c))
    elif k == 3:                                          # nearest point, smooth nowhere
        f = lambda x: (float(np.max(np.abs(x - c))), np.where(np.arange(m) == np.argmax(np.abs(x - c)), np.sign(x - c), 0.))
    elif k == 4:                                          # Rosenbrock's valley
        def f(x):
            y = x if m > 1 else np.r_[x, 1.]
            g = np.array([-400 * y[0] * (y[1] - y[0] ** 2) - 2 * (1 - y[0]), 200 * (y[1] - y[0] ** 2)] + [0.] * (len(y) - 2))
            return 100 * (y[1] - y[0] ** 2) ** 2 + (1 - y[0]) ** 2, g[:m]
    elif k == 5:                                          # plateaus, sub-gradients that do not vanish
        f = lambda x: (float(np.sum(np.floor(np.abs(x - c)))), np.where(x >= c, 1., -1.))
    elif k == 6:                                          # many local minima
        f = lambda x: (float(np.sum(np.sin(3 * x) + .1 * x * x)), 3 * np.cos(3 * x) + .2 * x)
    elif k == 7:                                          # unbounded
        f = lambda x: (float(np.sum(x)), np.ones(m))
    elif k == 8:                                          # answers that have nothing to do with the point
        f = lambda x: (float(NP.randint(-5, 6)) / 2, NP.randint(-3, 4, m) + (.5 if R.random() < .9 else 0.))
    elif k == 9:                                          # undefined outside of a ball
        def f(x):
            r = float(np.sum((x - c) ** 2))
            return (r, 2 * (x - c) + .01) if r < 30 else (float("nan"), 2 * (x - c))
    elif k == 11:                                         # a valley that is flat along and across
        a, t, fl = NP.randint(1, 6, m) / 4. * NP.choice([-1., 1.], m), NP.randint(-9, 10) / 8., NP.choice([0., .5])
        f = lambda x: (max(abs(float(a @ x) - t), fl), a * (1. if a @ x >= t else -1.))
    else:                                                 # gradient zero somewhere away from the start
        def f(x):
            r = float(np.sum((x - c) ** 2))
            return max(r, 4.) - 4, (2 * (x - c) if r > 4 else np.zeros(m))
    if R.random() < .3:
        # values far from zero, on either side
        up, g = R.choice([-1000., -20., -3., 3., 1000.]), f
        f = lambda x: (lambda t: (t[0] + up, t[1]))(g(x))
    return k, f


for h in range(scale(220, 4000)):
    m = R.choice([1, 2, 3, 4, 4, 7, 10])
    kind, f = objective(m)
    x0 = NP.randint(-6, 7, m)
    if R.random() < .7:
        x0 = x0 + NP.choice([0., .5, .1], m)
    o = dict(tolx=R.choice([1e-12, 1e-3, .05, 0.]), tolg=R.choice([1e-12, .1, 1e-300]), tolf=R.choice([1e-12, .01, .3, 0.]),
             maxiter=R.choice([0, 1, 2, 5, 20, 20, 40]), nsims=R.choice([1, 2, 5, 30]))
    if R.random() < .4:
        o.update(alpha=R.choice([2., 2.3, 4.]), h0=R.choice([1., .1, 3.]), nh=R.choice([1, 3, 5]), q1=R.choice([.9, .5, 1.]), q2=R.choice([1.1, 1.5, 1.]))
    if kind == 11:
        o.update(maxiter=R.choice([100, 200]), tolf=0., tolx=R.choice([1e-12, 1e-300]), tolg=1e-12, nsims=5)
    if kind == 7 and R.random() < .8:
        o["q2"], o["h0"] = 1.0, .1
    if R.random() < .08:
        o = {"maxiter": 60}
    if R.random() < .02:
        # a line search that ends by itself next to the limit of its length
        m, kind = R.choice([1, 2]), 12
        f = lambda x: (abs(float(x[0])), np.where(np.arange(len(x)) == 0, 1. if x[0] >= 0 else -1., 0.))
        x0 = np.r_[R.choice([1., -1.]) * (R.randint(496, 503) - .5), np.zeros(m - 1)]
        o = dict(tolx=0., tolf=0., tolg=0., h0=1., q2=1., maxiter=R.choice([1, 2]), nsims=R.choice([1, 30]))
    boom = R.randint(1, 40) if R.random() < .12 else 10 ** 9
    ev = []
    err = [None]

    def wrapped(x):
        if len(ev) + 1 == boom:
            err[0] = Boom("call %d" % boom)
            raise err[0]
        v, g = f(x)
        ev.append({"op": "call", "x": [num(t) for t in x], "f": num(v), "g": [num(t) for t in g]})
        return v, g
    keep = x0.copy()
    raised = [None]

    def go():
        try:
            return ip.kernel.ralgb5.ralgb5(wrapped, x0, **o) if not callable(getattr(ip, "ralgb5", None)) else ip.ralgb5(wrapped, x0, **o)
        except Boom as e:
            raised[0] = e
            raise
    res = obs(go, limit=60)
    same = bool(x0.dtype == keep.dtype and (x0 == keep).all())
    if res["k"] == "err" and err[0] is not None:
        ev.append({"op": "raise", "same": raised[0] is err[0], "kept": same})
    else:
        ev.append({"op": "return", "res": res, "kept": same})
    full = dict(tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, nsims=30)
    full.update(o)
    out.run("ralg/%d/%d" % (SHARD, h), ev, x0=[num(t) for t in x0], kind=kind,
            opt={"tolx": num(full["tolx"]), "tolg": num(full["tolg"]), "tolf": num(full["tolf"]), "maxiter": full["maxiter"],
                 "nsims": full["nsims"], "maxcal": 500})
out.close()
