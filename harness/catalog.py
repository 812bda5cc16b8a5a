"""Calls of the public interface on random inputs: (name, function, arguments).  Used by the
drivers that judge what is common to all calls (rounding mode, purity)."""
import operator
import numpy as np
from hlib import ip, Interval, CA, KA, AI

BIN = [operator.add, operator.sub, operator.mul, operator.truediv]
CMP = [operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne]


def end(R):
    return R.choice([R.randint(-5, 5), R.randint(-20, 20) / 8, round(R.uniform(-4, 4), 1), R.uniform(-9, 9)])


def interval(R, nz=False, proper=True):
    a, b = end(R), end(R)
    if nz:
        s = R.choice([-1, 1])
        a, b = s * (abs(a) + .125), s * (abs(b) + .125)
    if proper:
        a, b = min(a, b), max(a, b)
    return Interval(a, b, sortQ=False)


def array(R, sh, **k):
    n = int(np.prod(sh))
    d = np.empty(n, dtype=object)
    d[:] = [interval(R, **k) for _ in range(n)]
    return AI(d.reshape(sh))


def around(R, M, rel=.1):
    M = np.asarray(M, dtype=float)
    r = np.array([R.choice([0, 1, .5]) * rel for _ in range(M.size)]).reshape(M.shape)
    return Interval(M - r, M + r)


def system(R, n, m=None):
    """A regular system: dominant middle matrix."""
    m = m or n
    M = np.array([[R.randint(-2, 2) + (R.choice([-1, 1]) * 8 if i % m == j else 0) for j in range(m)] for i in range(n)], dtype=float)
    x = np.array([R.randint(-3, 3) for _ in range(m)])
    return around(R, M, .25), around(R, M @ x + [R.randint(-1, 1) for _ in range(n)], .5)


class Boom(Exception):
    pass


def scalar_calls(R):
    x, y = interval(R, proper=R.random() < .8), interval(R, nz=R.random() < .7, proper=R.random() < .8)
    n = end(R)
    k = R.randrange(12)
    if k <= 2:
        f = R.choice(BIN)
        return "scalar " + f.__name__, f, [x, y]
    if k == 3:
        f = R.choice(BIN)
        a = [x, n] if R.random() < .5 else [n, y]
        return "scalar number " + f.__name__, f, a
    if k == 4:
        f = R.choice([operator.neg, operator.abs])
        return "scalar " + f.__name__, f, [x]
    if k == 5:
        return "scalar pow", operator.pow, [interval(R), R.choice([0, 1, 2, 3, 7, -1, .5])]
    if k == 6:
        f = R.choice(CMP)
        return "scalar " + f.__name__, f, [x, R.choice([y, n])]
    if k == 7:
        f = R.choice(["sqrt", "exp", "log", "sin", "cos", "sign"])
        return "scalar " + f, getattr(ip, f), [interval(R)]
    if k == 8:
        p = R.choice(["mid", "rad", "wid", "mag", "mig", "khi", "dual", "pro", "opp", "inv"])
        return "scalar ." + p, lambda v: getattr(v, p), [y]
    if k == 9:
        return "scalar in", operator.contains, [x, R.choice([y, n])]
    if k == 10:
        return "intersection", ip.intersection, [x, R.choice([y, n])]
    return "Interval", lambda a, b, s, m: Interval(a, b, sortQ=s, midRadQ=m), [n, abs(end(R)), R.random() < .5, R.random() < .4]


def array_calls(R):
    sh = R.choice([(2,), (3,), (2, 2), (2, 3)])
    A, B = array(R, sh, proper=R.random() < .8), array(R, sh, nz=True)
    k = R.randrange(13)
    if k <= 2:
        f = R.choice(BIN)
        o = R.choice([B, interval(R, nz=True), 2.5, np.arange(1., 1 + sh[-1])])
        return "array " + f.__name__, f, [A, o] if R.random() < .7 or isinstance(o, np.ndarray) else [o, B]
    if k == 3:
        return "matmul", operator.matmul, [array(R, (2, 3)), R.choice([array(R, (3, 2)), array(R, (3,)), np.arange(3.)])]
    if k == 4:
        p = R.choice(["mid", "rad", "wid", "mag", "mig", "dual", "pro", "opp", "inv", "T", "vertex", "inf", "sup", "shape", "ndim"])
        return "array ." + p, lambda v: getattr(v, p), [B]
    if k == 5:
        f = R.choice(["sqrt", "exp", "log", "sin", "cos", "sign"])
        return "array " + f, getattr(ip, f), [array(R, sh)]
    if k == 6:
        f = R.choice(["wid", "mid", "rad", "inf", "sup", "mag", "khi", "isnan"])
        return "module " + f, getattr(ip, f), [B]
    if k == 7:
        f = R.choice(["subset", "superset", "proper_subset", "proper_superset", "contain", "supercontain", "intersection", "dist"])
        return f, getattr(ip, f), [A, array(R, sh)]
    if k == 8:
        f = R.choice(CMP)
        return "array " + f.__name__, f, [A, R.choice([B, 1.5])]
    if k == 9:
        return "asinterval", ip.asinterval, [R.choice([A, np.arange(4.), [1, 2.5], 3])]
    if k == 10:
        f, a = R.choice([(ip.zeros, [sh]), (ip.full, [sh, -1, 2]), (ip.eye, [3]), (ip.diag, [array(R, (3,))]), (ip.diag, [array(R, (3, 3))]),
                         (ip.compmat, [array(R, (2, 2))]), (ip.Neumaier_system, [3, 3.5]), (ip.Shary_system, [3]), (ip.Toft_system, [3, .1, .2])])
        return f.__name__, f, a
    if k == 11:
        return "Interval of lists", lambda v: Interval(v), [[[1, 2], [3.5, -1], [0, .1]]]
    return "reshape", lambda v: v.reshape((int(np.prod(sh)),)), [A]


def quad(R):
    """f with a zero at the given point, and its Jacobian."""
    c = np.array([R.randint(-2, 2) / 2 for _ in range(2)])
    f = lambda v: ip.asinterval([v[0] * 2 + v[0] * v[1] * .1 - float(2 * c[0] + .1 * c[0] * c[1]), v[1] * 3 - v[0] * .5 - float(3 * c[1] - .5 * c[0])])
    J = lambda v: ip.asinterval([[2 + v[1] * .1, v[0] * .1], [Interval(-.5, -.5), Interval(3, 3)]])
    return c, f, J


def solver_calls(R):
    k = R.randrange(18)
    n = R.choice([2, 3])
    A, b = system(R, n)
    O, c = system(R, n + 1, n)
    x = np.array([R.randint(-3, 3) for _ in range(n)], dtype=float)
    F = R.choice([ip.Tol, ip.Uni, ip.Uss])
    w = np.array([R.choice([1., .5, 2.]) for _ in range(n + 1)])
    if k == 0:
        return F.__name__ + ".value", lambda *a: F.value(*a[:3], weight=a[3]), [O, c, x, R.choice([None, w])]
    if k == 1:
        return F.__name__ + ".constituent", lambda *a: F.constituent(*a[:3], weight=a[3]), [O, c, x, R.choice([None, w])]
    if k == 2:
        return F.__name__ + ".maximize", lambda *a: F.maximize(*a[:2], x0=a[2], weight=a[3]), [O, c, R.choice([None, x]), R.choice([None, w])]
    if k == 3:
        lc = ip.LinearConstraint(np.eye(n), lb=-np.ones(n), ub=np.ones(n) * 2)
        return "maximize with constraint", lambda A, b, l: ip.Tol.maximize(A, b, linear_constraint=l), [O, c, lc]
    if k == 4:
        return "Gauss", ip.Gauss, [A, b]
    if k == 5:
        return "Gauss_Seidel", ip.Gauss_Seidel, [A, b]
    if k == 6:
        return "HBR", ip.HBR, [A, b]
    if k == 7:
        s = R.choice(["uni", "tol"])
        return "Rohn " + s, lambda A, b: ip.Rohn(A, b, consistency=s), [O, c]
    if k == 8:
        return "PSS", lambda A, b, m: ip.PSS(A, b, maxiter=m), [A, b, R.choice([0, 3, 20])]
    if k == 9:
        return "PPS", lambda A, b, m: ip.PPS(A, b, maxiter=m), [A, b, R.choice([0, 3, 20])]
    if k == 10:
        return "Subdiff", ip.Subdiff, [A, b]
    if k == 11:
        return "Neumaier", ip.Neumaier, [O, c, x]
    if k == 12:
        A, b = system(R, 2)
        s = R.choice(["uni", "tol"])
        return "IntLinIncR2 " + s, lambda A, b: ip.IntLinIncR2(A, b, show=False, consistency=s), [A, b]
    if k == 13:
        M = np.array([[1, 0], [0, 1], [-1, 0], [0, -1], [R.randint(-2, 2), R.randint(-2, 2)]])
        v = np.array([-2, -3, -R.randint(1, 4), -R.randint(1, 4), -R.randint(0, 3)])
        m = R.choice([5, 5, 2])
        return "lineqs", lambda A, b: ip.lineqs(A, b, show=False), [M[:m], v[:m]]
    if k == 14:
        M = np.vstack([np.eye(3), -np.eye(3)])
        v = -np.array([R.randint(1, 3) for _ in range(6)], dtype=float)
        return "lineqs3D", lambda A, b: ip.lineqs3D(A, b, show=False), [M, v]
    if k == 15:
        c, f, J = quad(R)
        s = R.choice(["Krawczyk", "HansenSengupta"])
        X = Interval(c - R.choice([.25, .5]), c + R.choice([.25, .5]))
        return s, lambda x: getattr(ip, s)(f, J, x, maxiter=20), [X]
    if k == 16:
        f = lambda v: (v[0] - .5) ** 2 + v[1] ** 2
        return "globopt", lambda x: ip.globopt(f, x, maxiter=30), [Interval([-1, -1], [2, 2])]
    g = lambda v: (float(np.sum((v - 1) ** 2)), 2 * (v - 1))
    return "ralgb5", lambda x: ip.ralgb5(g, x), [x]


def failing_calls(R):
    k = R.randrange(15)
    A, b = system(R, 2)
    zero = Interval(-1, 2)
    if k == 0:
        return "divide by an interval with zero", operator.truediv, [interval(R), R.choice([zero, Interval(0, 1), Interval(2, -1, sortQ=False), 0, 0.0])]
    if k == 1:
        return "divide array", operator.truediv, [array(R, (2,)), AI(np.array([interval(R, nz=True), zero], dtype=object))]
    if k == 2:
        return "bad operand", R.choice(BIN), [interval(R), R.choice(["1", None, object(), {}, 1j])]
    if k == 3:
        return "inverse of zero", lambda v: v.inv, [zero]
    if k == 4:
        return "log", ip.log, [Interval(-2, -1)]
    if k == 5:
        return "bad constructor", lambda a, b: Interval(a, b, midRadQ=True), [1, -1]
    if k == 6:
        return "bad constructor", Interval, ["1", 2]
    if k == 7:
        return "shapes", operator.add, [array(R, (2,)), array(R, (3,))]
    if k == 8:
        return "singular", R.choice([ip.Gauss, ip.HBR, ip.Gauss_Seidel, ip.PPS]), [Interval([[-1, -1], [-1, -1]], [[1, 1], [1, 1]]), b]
    if k == 9:
        f, m = R.choice([(ip.Gauss_Seidel, 3), (ip.HBR, 3), (ip.PPS, 3)])
        return "not square", f, [array(R, (3, 2)), b]
    if k == 10:
        return "index", lambda a: a[5], [array(R, (2,))]
    if k == 11:
        return "sqrt", ip.sqrt, [R.choice([Interval(-2, -1), AI(np.array([Interval(1, 2), Interval(-3, -2)], dtype=object))])]
    if k == 12:
        return "overflow", R.choice([ip.exp, lambda v: v * v, lambda v: v ** 9]), [R.choice([Interval(700, 800), Interval(1e200, 1e300), Interval(-1e308, 1e308)])]
    if k == 13:
        return "power", operator.pow, [Interval(-1, 2), R.choice([-1, .5, "2", None])]
    return "empty tolerable set", lambda A, b: ip.Rohn(A, b, consistency="tol"), [Interval([[1, 0], [0, 1]], [[2, 1], [1, 2]]), Interval([1, 1], [1, 1])]
