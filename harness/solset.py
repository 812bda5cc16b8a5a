"""Exact extreme points of united and tolerable solution sets (proposals; the specifications check
membership of every point with Oettli-Prager's inequalities before using it)."""
import itertools
from fractions import Fraction as Fr
import lp


def united(rows, b, box=None):
    """Points of the united set that are extreme in every coordinate direction, orthant by orthant
    (inside box, if given).  Returns (points, bounded, hull): hull[k] = exact (min, max) or None."""
    n, m = len(rows), len(rows[0])
    mid = [[(p + q) / 2 for p, q in row] for row in rows]
    rad = [[(q - p) / 2 for p, q in row] for row in rows]
    pts, bounded, empty = [], True, True
    hull = [[None, None] for _ in range(m)]
    for s in itertools.product((1, -1), repeat=m):
        M, r = [], []
        for i in range(n):
            M.append([mid[i][j] - rad[i][j] * s[j] for j in range(m)])
            r.append(b[i][1])
            M.append([-mid[i][j] - rad[i][j] * s[j] for j in range(m)])
            r.append(-b[i][0])
        for j in range(m):
            M.append([Fr(-s[j]) if k == j else Fr(0) for k in range(m)])
            r.append(Fr(0))
        if box is not None:
            for j in range(m):
                M.append([Fr(int(k == j)) for k in range(m)]); r.append(box[j][1])
                M.append([-Fr(int(k == j)) for k in range(m)]); r.append(-box[j][0])
        for k in range(m):
            done = False
            for d in (1, -1):
                st, x, y = lp.maximize([Fr(d) if j == k else Fr(0) for j in range(m)], M, r)
                if st == "infeasible":
                    done = True
                    break
                empty = False
                if st == "unbounded":
                    bounded = False
                    for t in (1, 1000, 10 ** 6):
                        pts.append([p + t * q for p, q in zip(x, y)])
                    hull[k][d > 0] = Fr(d) * 10 ** 30
                else:
                    pts.append(x)
                    h = hull[k][d > 0]
                    if h is None or (x[k] - h) * d > 0:
                        hull[k][d > 0] = x[k]
            if done:
                break
    uniq = []
    for p in pts:
        if p not in uniq:
            uniq.append(p)
    return uniq, bounded, (None if empty else hull)


def tolerable(rows, b):
    """The same for {x : A x in b}: x = p - q, p, q >= 0, sup A p - inf A q <= sup b, ..."""
    n, m = len(rows), len(rows[0])
    M, r = [], []
    for i in range(n):
        M.append([q for p, q in rows[i]] + [-p for p, q in rows[i]]); r.append(b[i][1])
        M.append([-p for p, q in rows[i]] + [q for p, q in rows[i]]); r.append(-b[i][0])
    for j in range(2 * m):
        M.append([Fr(-int(j == k)) for k in range(2 * m)]); r.append(Fr(0))
    pts, bounded = [], True
    hull = [[None, None] for _ in range(m)]
    for k in range(m):
        for d in (1, -1):
            c = [Fr(0)] * (2 * m)
            c[k], c[m + k] = Fr(d), Fr(-d)
            st, x, y = lp.maximize(c, M, r)
            if st == "infeasible":
                return [], True, None
            z = [x[j] - x[m + j] for j in range(m)]
            if st == "unbounded":
                bounded = False
                ray = [y[j] - y[m + j] for j in range(m)]
                pts.append([p + 10 ** 6 * q for p, q in zip(z, ray)])
            else:
                pts.append(z)
                hull[k][d > 0] = z[k]
    return pts, bounded, hull
