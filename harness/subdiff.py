"""Formal solutions by the sub-differential Newton method (trace specification: SubTrace)."""
from hlib import *

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("subdiff/%d" % SHARD)
out = Out()
L = ip.linear


def el(k, c=None):
    """An interval of any kind: signs, directions, points, zero."""
    t = R.random()
    if t < .08:
        return [0., 0.]
    p, q = R.randint(-k, k) / 4, R.randint(-k, k) / 4
    if t < .2:
        q = p
    return [p, q]


def system(n):
    A = [[el(R.choice([2, 12])) for _ in range(n)] for _ in range(n)]
    kind = R.choice(["any", "any", "improper", "proper"])
    for i in range(n):
        s = sum(max(map(abs, A[i][j])) for j in range(n) if j != i)
        c = R.choice([-1, 1]) * max(R.choice([1.25, 1.5, 4]) * s, R.choice([.5, 1, 8]))
        A[i][i] = R.sample([c * 1., c * R.choice([1, 1.25, 3])], 2)
        if kind != "any":
            A[i] = [sorted(t, reverse=kind == "improper") for t in A[i]]
    s = 2. ** R.choice([0, 0, 0, R.randint(-20, 20)])
    b = [el(R.choice([4, 30, 200])) for _ in range(n)]
    if R.random() < .3:
        b = [sorted(t, reverse=R.random() < .5) for t in b]
    return [[[p * s, q * s] for p, q in r] for r in A], b


for h in range(scale(700, 5000)):
    n = R.choice([1, 2, 3, 4, 4, 5, 7])
    a, b = system(n)
    A, B = Interval(a, sortQ=False), Interval(b, sortQ=False)
    if R.random() < .2 and all(p <= q for r in a for p, q in r):
        A = Interval(a)
    kw = {}
    if R.random() < .3:
        kw["tau"] = R.choice([.5, .8, 1.])
    if R.random() < .1:
        kw["tol"] = 1e-14 if "tau" not in kw else 1e-13
    ident = "subdiff/%d/%d" % (SHARD, h)
    out.pending(ident)
    before = [enc(A), enc(B)]
    res = obs(lambda: L.Subdiff(A, B, **kw), limit=30)
    out.run(ident, [{"op": "Subdiff", "A": before[0], "b": before[1], "tol": num(kw.get("tol", 1e-12)), "res": res, "kept": [before, [enc(A), enc(B)]]}])
out.close()
