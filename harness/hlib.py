"""Shared by the drivers: encoding of observations, per-call time limits, run files.

A *run* is one execution history of the real library: {"id", "ev": [event, ...]} on
one line of an ndjson file.  Drivers only execute and record; verdicts are TLC's.
"""
import json, os, random, signal, sys, warnings, io, contextlib, time
from fractions import Fraction
from numbers import Number

warnings.simplefilter("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np
np.seterr(all="ignore")

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


def scale(quick, thorough):
    return thorough if THOROUGH else quick


def rng(tag):
    return random.Random("%s/%s" % (SEED, tag))


import intvalpy as ip
from intvalpy.kernel.interval_arithmetics import ClassicalArithmetic as CA, KaucherArithmetic as KA
from intvalpy.kernel.real_intervals import ArrayInterval as AI

want = os.environ.get("VERIF_PKG")
if want and not os.path.realpath(ip.__file__).startswith(os.path.realpath(want) + os.sep):
    sys.stderr.write("wrong intvalpy imported: %s\n" % ip.__file__)
    sys.exit(3)

Interval = ip.Interval


# ---- numbers ---------------------------------------------------------------------
def num(x):
    """Exact text of a real number."""
    if isinstance(x, (bool, np.bool_)):
        return str(int(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, Fraction):
        return str(x.numerator) if x.denominator == 1 else "%d/%d" % (x.numerator, x.denominator)
    try:
        f = float(x)
    except Exception:
        return "nan"
    if f != f:
        return "nan"
    if f in (float("inf"), float("-inf")):
        return "inf" if f > 0 else "-inf"
    n, d = f.as_integer_ratio()
    return str(n) if d == 1 else "%d/%d" % (n, d)


def is_real(x):
    return isinstance(x, Number) and not isinstance(x, complex)


def iv(x):
    """[lo, hi, class] of a scalar interval."""
    return [num(x.a), num(x.b), "K" if isinstance(x, KA) else "C"]


def enc(x):
    """Any returned object, as a tagged record the specification can read."""
    try:
        if x is None:
            return {"k": "none"}
        if isinstance(x, (CA, KA)):
            return {"k": "iv", "v": iv(x)}
        if isinstance(x, (bool, np.bool_)):
            return {"k": "bool", "v": bool(x)}
        if is_real(x):
            return {"k": "num", "v": num(x)}
        if isinstance(x, AI):
            d = x.data
            if d.dtype == object and all(isinstance(e, (CA, KA)) for e in d.flat):
                return {"k": "arr", "sh": list(d.shape), "v": [iv(e) for e in d.flat]}
            return {"k": "other", "t": "Interval array of " + ",".join(sorted({type(e).__name__ for e in d.flat}))}
        if isinstance(x, np.ndarray):
            if x.dtype == object and x.size and all(isinstance(e, (CA, KA)) for e in x.flat):
                return {"k": "arr", "sh": list(x.shape), "v": [iv(e) for e in x.flat]}
            if x.dtype == bool or (x.dtype == object and x.size and all(isinstance(e, (bool, np.bool_)) for e in x.flat)):
                return {"k": "barr", "sh": list(x.shape), "v": [bool(e) for e in x.flat]}
            if all(is_real(e) for e in x.flat):
                return {"k": "narr", "sh": list(x.shape), "v": [num(e) for e in x.flat]}
            return {"k": "other", "t": "ndarray " + str(x.dtype)}
        if isinstance(x, (tuple, list)):
            return {"k": "seq", "v": [enc(e) for e in x]}
        if isinstance(x, str):
            return {"k": "str", "v": x}
    except TimeoutError:
        raise
    except Exception as e:
        return {"k": "other", "t": "unreadable " + type(x).__name__ + ": " + type(e).__name__}
    return {"k": "other", "t": type(x).__name__}


# ---- executing ---------------------------------------------------------------------
class Late(BaseException):
    pass


def _alarm(*_):
    raise Late()


signal.signal(signal.SIGALRM, _alarm)


def call(f, *a, limit=20, **k):
    """(ok, value) or (False, record of the exception).  Output of the library is discarded."""
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            v = f(*a, **k)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return True, v
    except Late:
        return False, {"k": "err", "t": "Timeout", "m": "no result in %ss" % limit}
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False, {"k": "err", "t": type(e).__name__, "m": str(e)[:160]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def obs(f, *a, limit=20, **k):
    """Run and encode in one step: the record of the result or of the exception."""
    ok, v = call(f, *a, limit=limit, **k)
    return enc(v) if ok else v


class Out:
    """Writes runs, one per line; flushed so that a crash of the interpreter leaves the rest."""
    def __init__(self, path=None):
        self.f = open(path or sys.argv[1], "w")
        self.n = 0
        self.t0 = time.time()

    def run(self, ident, ev, **meta):
        rec = dict(id=ident, ev=ev, **meta)
        self.f.write(json.dumps(rec) + "\n")
        self.n += 1

    def pending(self, ident):
        """Named before a risky call: if the interpreter dies, the runner knows where."""
        self.f.flush()
        with open(self.f.name + ".pending", "w") as g:
            g.write(ident)

    def close(self):
        self.f.close()
        with contextlib.suppress(FileNotFoundError):
            os.unlink(self.f.name + ".pending")
        with open(self.f.name + ".done", "w") as g:
            g.write(str(self.n))
