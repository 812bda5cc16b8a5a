"""Replays behaviours of ArrayMachine in the real code (trace specification: ArrayTrace)."""
import copy, operator
from hlib import *

SHARD, SHARDS = int(os.environ.get("VERIF_SHARD", 0)), int(os.environ.get("VERIF_SHARDS", 1))
R = rng("mutate/%d" % SHARD)
out = Out()


def value(t):
    f = Fraction(t)
    return int(f) if f.denominator == 1 and R.random() < .5 else float(f)


def interval(v):
    return Interval(value(v[0]), value(v[1]), sortQ=False)


def build(val):
    d = np.empty(len(val["v"]), dtype=object)
    d[:] = [interval(v) for v in val["v"]]
    return AI(d.reshape(val["sh"]))


def key(k, deletion=False):
    sel = []
    for s in k:
        if s["t"] == "i":
            sel.append(s["i"] if R.random() < .8 else np.int64(s["i"]))
        elif s["t"] == "s":
            sel.append(slice(s["b"][0] if s["b"] else None, s["e"][0] if s["e"] else None, s["st"] if s["st"] != 1 or (not deletion and R.random() < .5) else None))
        elif s["t"] == "l":
            sel.append(list(s["l"]) if R.random() < .5 else np.array(s["l"]))
        else:
            sel.append(np.array(s["l"]))
    return sel[0] if len(sel) == 1 and (deletion or isinstance(sel[0], list) or R.random() < .7) else tuple(sel)


def operand(v, pool):
    if v["k"] == "slot":
        return pool[v["n"] - 1]
    if v["k"] == "iv":
        return interval(v["v"])
    if v["k"] == "num":
        return value(v["v"])
    return np.array([value(x) for x in v["v"]]).reshape(v["sh"])


IN = {"iadd": operator.iadd, "isub": operator.isub, "imul": operator.imul, "idiv": operator.itruediv}
BI = {"add": operator.add, "sub": operator.sub, "mul": operator.mul}


def apply(o, pool):
    x, op, d = pool[o["t"] - 1], o["op"], o["d"] - 1
    if op == "new":
        r = build(o["val"])
    elif op == "get":
        r = x[key(o["key"])]
        if isinstance(r, (CA, KA)):
            return r
    elif op == "set":
        x[key(o["key"])] = operand(o["val"], pool)
        return None
    elif op == "del":
        del x[key(o["key"], True)]
        return None
    elif op in IN:
        r = IN[op](x, operand(o["val"], pool))
        pool[o["t"] - 1] = r
        return r
    elif op in BI:
        y = operand(o["val"], pool)
        r = BI[op](y, x) if op in ("add", "mul") and R.random() < .3 else BI[op](x, y)
    elif op == "T":
        r = x.T
    elif op == "reshape":
        r = x.reshape(tuple(o["sh"]))
    elif op == "neg":
        r = -x
    elif op == "copy":
        r = x.copy()
    elif op == "deepcopy":
        r = copy.deepcopy(x)
    elif op == "rev":
        r = rows(reversed(x), x.shape)
    elif op == "list":
        r = rows(iter(x), x.shape)
    pool[d] = r
    return r


def rows(it, shape):
    flat = []
    for row in it:
        flat.extend([row] if isinstance(row, (CA, KA)) else np.array(row, dtype=object).ravel())
    d = np.empty(len(flat), dtype=object)
    d[:] = flat
    return AI(d.reshape(shape))


def look(x):
    if not isinstance(x, AI):
        return {"x": enc(x)}
    return {"x": enc(x), "nd": int(x.ndim), "len": len(x), "sh": [int(n) for n in x.shape],
            "it": obs(lambda: rows(iter(x), x.shape)), "a": obs(lambda: x.a), "b": obs(lambda: x.b)}


for n, line in enumerate(open(os.environ["ARRAYS"])):
    if n % SHARDS != SHARD:
        continue
    hist = json.loads(line)
    pool, ev = [None] * 3, []
    for i, o in enumerate(hist):
        if i < 3:
            apply(o, pool)
            if i == 2:
                ev.append({"op": "start", "o": o, "r": enc(None), "pool": [look(x) for x in pool]})
            continue
        r = obs(apply, o, pool)
        ev.append({"op": o["op"], "o": o, "r": r, "pool": [look(x) for x in pool]})
    out.run("mutate/%d" % n, ev)
out.close()
