"""The rounding mode before, during and after calls (trace specification: Fenv)."""
import ctypes, gc
from hlib import *
import catalog as C

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("fenv/%d" % SHARD)
out = Out()
libm = ctypes.CDLL("libm.so.6")
MODES = {0: "nearest", 0x400: "down", 0x800: "up", 0xc00: "zero"}
PAIRS = [(1.0, 2.0 ** -53), (1.0, 3 * 2.0 ** -54), (-1.0, -2.0 ** -53), (-1.0, -3 * 2.0 ** -54), (.1, .2), (1.0, -2.0 ** -55)]


def mode():
    return MODES.get(libm.fegetround(), "?")


def probes():
    return [[num(a), num(b), num(a + b)] for a, b in PAIRS]


def reset():
    libm.fesetround(0)


class Touchy(float):
    """A number whose own arithmetic raises."""
    def __add__(self, o): raise C.Boom()
    __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __neg__ = __lt__ = __gt__ = __le__ = __ge__ = __add__


class Mute(float):
    def __float__(self): raise C.Boom()
    __index__ = __int__ = __float__


def callback_call():
    """A library call that runs user code which raises at its k-th invocation."""
    seen, k = [], R.choice([1, 2, 3, 5, 9, 10 ** 6])

    def user(f):
        def g(*a):
            seen.append(mode())
            if len(seen) >= k:
                raise C.Boom()
            return f(*a)
        return g
    c, f, J = C.quad(R)
    X = Interval(c - .5, c + .5)
    s = R.choice(["Krawczyk", "HansenSengupta", "globopt", "ralgb5"])
    if s in ("Krawczyk", "HansenSengupta"):
        return s + " with user functions", lambda: getattr(ip, s)(user(f), user(J), X, maxiter=10), seen
    if s == "globopt":
        return s + " with a user function", lambda: ip.globopt(user(lambda v: v[0] ** 2 - v[1]), Interval([-1, -1], [1, 1]), maxiter=12), seen
    return s + " with a user function", lambda: ip.ralgb5(user(lambda v: (float(np.abs(v).sum()), np.sign(v))), np.array([3., 1.])), seen


def touchy_call():
    x = C.interval(R)
    t = R.choice([Touchy(2.5), Mute(2.5)])
    A = C.array(R, (2,))
    f = R.choice([lambda: R.choice(C.BIN)(x, t), lambda: R.choice(C.BIN)(t, x), lambda: R.choice(C.BIN)(A, t), lambda: Interval(t, 3.0),
                  lambda: Interval(1.0, t, midRadQ=True), lambda: x ** t, lambda: t in x, lambda: x < t, lambda: ip.asinterval(t) * x])
    return "operand whose arithmetic raises", f, []


for h in range(scale(120, 2000)):
    ev = []
    reset()
    for i in range(12):
        k = R.randrange(14)
        if k == 0:
            name, f, seen = callback_call()
        elif k <= 2:
            name, f, seen = touchy_call()
        else:
            name, g, args = R.choice([C.scalar_calls, C.scalar_calls, C.array_calls, C.failing_calls, C.failing_calls] + ([C.solver_calls] if i == 0 else []))(R)
            f, seen = (lambda: g(*args)), []
        before = mode()
        ok, v = call(f)
        after = mode()
        ev.append({"op": "call", "name": name, "before": before, "inside": sorted(set(seen)), "after": after, "probes": probes(),
                   "raised": "" if ok else v["t"]})
        if after != "nearest":
            reset()
    out.run("fenv/%d/%d" % (SHARD, h), ev)
out.close()
