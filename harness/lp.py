"""Exact linear programming and systems over Fractions, for oracles' certificates.  Whatever is
computed here is only a proposal: the specifications check it."""
from fractions import Fraction as Fr


def solve(A, b):
    """A solution of the square system, or None if it is singular."""
    n = len(A)
    M = [[Fr(t) for t in row] + [Fr(r)] for row, r in zip(A, b)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        d = M[c][c]
        M[c] = [t / d for t in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [s - f * t for s, t in zip(M[r], M[c])]
    return [M[i][n] for i in range(n)]


def maximize(c, A, b):
    """max c x  s.t.  A x <= b, x free.  -> ('optimal', x, y) with y >= 0, yA = c, yb = cx;
    ('unbounded', x, ray) ; ('infeasible', None, y) with y >= 0, yA = 0, yb < 0.
    Solved through the dual: min b y, A^T y = c, y >= 0, by the two phase simplex with Bland's rule."""
    m, n = len(A), len(c)
    # primal in standard form: x = p - q, slacks s >= 0:  A p - A q + s = b
    cols = 2 * n + m
    T = []
    basis = []
    art = []
    for i in range(m):
        row = [Fr(t) for t in A[i]] + [-Fr(t) for t in A[i]] + [Fr(int(i == k)) for k in range(m)]
        r = Fr(b[i])
        if r < 0:
            row = [-t for t in row]
            r = -r
            art.append(i)
            basis.append(None)
        else:
            basis.append(2 * n + i)
        T.append((row, r))
    k = len(art)
    rows = []
    for i, (row, r) in enumerate(T):
        rows.append(row + [Fr(int(i == a)) for a in art] + [r])
        if basis[i] is None:
            basis[i] = cols + art.index(i)
    obj = [Fr(t) for t in c] + [-Fr(t) for t in c] + [Fr(0)] * m

    def pivot(rows, z, r, e):
        d = rows[r][e]
        if d != 1:
            rows[r] = [t / d for t in rows[r]]
        R = rows[r]
        nz = [j for j, t in enumerate(R) if t]
        for i in range(len(rows)):
            if i != r and rows[i][e]:
                f = rows[i][e]
                row = rows[i]
                for j in nz:
                    row[j] -= f * R[j]
        if z[e]:
            f = z[e]
            for j in nz:
                z[j] -= f * R[j]

    def run(z, width):
        """z: reduced costs to be maximized (z[j] > 0 enters); last entry -value."""
        while True:
            e = next((j for j in range(width) if z[j] > 0), None)
            if e is None:
                return None
            best = None
            for i in range(m):
                if rows[i][e] > 0:
                    q = rows[i][-1] / rows[i][e]
                    if best is None or q < best[0] or (q == best[0] and basis[i] < basis[best[1]]):
                        best = (q, i)
            if best is None:
                return e
            pivot(rows, z, best[1], e)
            basis[best[1]] = e

    if k:
        z = [Fr(0)] * cols + [Fr(-1)] * k + [Fr(0)]
        for i in range(m):
            if basis[i] >= cols:
                z = [s + t for s, t in zip(z, rows[i])]
        run(z, cols)
        if z[-1] != 0:
            y = [-z[2 * n + i] for i in range(m)]     # a Farkas combination, up to sign
            return "infeasible", None, y
        for i in range(m):
            if basis[i] >= cols:
                e = next((j for j in range(cols) if rows[i][j] != 0), None)
                if e is not None:
                    pivot(rows, z, i, e)
                    basis[i] = e
    z = obj + [Fr(0)] * k + [Fr(0)]
    for i in range(m):
        if z[basis[i]] and basis[i] < cols:
            f = z[basis[i]]
            z = [s - f * t for s, t in zip(z, rows[i])]
    bad = run(z, cols)
    v = [Fr(0)] * (cols + k)
    for i in range(m):
        v[basis[i]] = rows[i][-1]
    x = [v[j] - v[n + j] for j in range(n)]
    if bad is not None:
        d = [Fr(0)] * (cols + k)
        d[bad] = Fr(1)
        for i in range(m):
            d[basis[i]] = -rows[i][bad]
        return "unbounded", x, [d[j] - d[n + j] for j in range(n)]
    y = [-z[2 * n + i] for i in range(m)]
    return "optimal", x, y
