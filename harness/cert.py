"""Exact dual solutions of the maximization of Tol (proposals; Optim.tla checks them)."""
from fractions import Fraction as Fr
import lp
from hlib import num


def certificate(rows, b, w, C, lb, ub):
    """Dual solution of max t: t <= w_i (rad b_i + s (mid b_i - a x)) for all vertices a of row i."""
    m = len(rows[0])
    cons = [(r, s) for r in range(len(C)) for s in (1, -1) if abs((ub if s == 1 else lb)[r]) != float("inf")]
    n = len(rows)
    M, rhs = [], []
    # variables: p_j, q_j >= 0 (x = p - q), t
    for i in range(n):
        mid = [(p + q) / 2 for p, q in rows[i]]
        rad = [(q - p) / 2 for p, q in rows[i]]
        bm, br = (b[i][0] + b[i][1]) / 2, (b[i][1] - b[i][0]) / 2
        for s in (1, -1):
            M.append([w[i] * (s * c + r) for c, r in zip(mid, rad)] + [w[i] * (-s * c + r) for c, r in zip(mid, rad)] + [Fr(1)])
            # t + w(-s) ... : t <= w(br - s*... ) with the worst a for this sign
            rhs.append(w[i] * (br + s * bm))
    for r, s in cons:
        M.append([s * Fr(c) for c in C[r]] + [-s * Fr(c) for c in C[r]] + [Fr(0)])
        rhs.append(s * Fr((ub if s == 1 else lb)[r]))
    for j in range(2 * m):
        M.append([Fr(-int(j == k)) for k in range(2 * m)] + [Fr(0)])
        rhs.append(Fr(0))
    st, v, y = lp.maximize([Fr(0)] * (2 * m) + [Fr(1)], M, rhs)
    if st != "optimal":
        return None, None
    # row k of the LP with multiplier y is split between the vertices a of each column so that the
    # slopes cancel: column j needs a_j = mid + d rad with a weighted sum of zero slopes
    P, Q = [], []
    for k in range(2 * n):
        if y[k]:
            P.append([k // 2, 1 if k % 2 == 0 else -1, y[k]])
    for k, (r, s) in enumerate(cons):
        if y[2 * n + k]:
            Q.append({"r": r + 1, "s": s, "lam": num(y[2 * n + k])})
    cert = []
    for j in range(m):
        # find d in [-1, 1], the same for all pieces up to the sign of s, with zero total slope
        base = sum(l * w[i] * -s * (rows[i][j][0] + rows[i][j][1]) / 2 for i, s, l in P) \
            + sum(Fr(q["lam"]) * -q["s"] * Fr(C[q["r"] - 1][j]) for q in Q)
        room = sum(l * w[i] * (rows[i][j][1] - rows[i][j][0]) / 2 for i, s, l in P)
        if room == 0:
            assert base == 0
            d = Fr(0)
        else:
            d = base / room
            assert -1 <= d <= 1
        cert.append(d)
    PP = [{"i": i + 1, "s": s, "lam": num(l),
           "a": [num((rows[i][j][0] + rows[i][j][1]) / 2 + s * cert[j] * (rows[i][j][1] - rows[i][j][0]) / 2) for j in range(m)]}
          for i, s, l in P]
    return PP, Q


def point_certificate(rows, b, w, feature, worst, norm, C, lb, ub, tol=0, rounds=40):
    """Exact dual solution of max min_i / sum_i w_i (rad b_i - max over points z of row i of
    |mid b_i - feature(z) x|), by cutting planes.  rows: boxes; worst(box, x, s) is the point of the box
    where s * feature(z) x is greatest.  -> pieces, constraints, value, x; Nones if it does not settle."""
    n = len(rows)
    cons = [(r, s) for r in range(len(C)) for s in (1, -1) if abs((ub if s == 1 else lb)[r]) != float("inf")]
    mid = lambda t: (t[0] + t[1]) / 2
    cuts = [(i, s, tuple(mid(t) for t in rows[i])) for i in range(n) for s in (1, -1)]
    k = n if norm == "l1" else 1
    for _ in range(rounds):
        M, rhs = [], []
        for i, s, z in cuts:
            a = feature(z)
            t = [Fr(0)] * k
            t[i if norm == "l1" else 0] = Fr(1)
            M.append([w[i] * s * v for v in a] + t)
            rhs.append(w[i] * ((b[i][1] - b[i][0]) / 2 + s * mid(b[i])))
        for r, s in cons:
            M.append([s * Fr(c) for c in C[r]] + [Fr(0)] * k)
            rhs.append(s * Fr((ub if s == 1 else lb)[r]))
        m = len(M[0]) - k
        st, v, y = lp.maximize([Fr(0)] * m + [Fr(1)] * k, M, rhs)
        if st != "optimal":
            return None, None, None, None
        x, t = v[:m], v[m:]
        new = []
        for i in range(n):
            for s in (1, -1):
                z = tuple(worst(rows[i], x, s))
                have = w[i] * ((b[i][1] - b[i][0]) / 2 + s * (mid(b[i]) - sum(p * q for p, q in zip(feature(z), x))))
                if have < t[i if norm == "l1" else 0] - tol and (i, s, z) not in cuts:
                    new.append((i, s, z))
        if not new:
            P = [{"i": i + 1, "s": s, "lam": num(y[j]), "z": [num(q) for q in z]} for j, (i, s, z) in enumerate(cuts) if y[j]]
            Q = [{"r": r + 1, "s": s, "lam": num(y[len(cuts) + j])} for j, (r, s) in enumerate(cons) if y[len(cuts) + j]]
            return P, Q, sum(t), x
        cuts += new
    return None, None, None, None
