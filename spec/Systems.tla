------------------------------- MODULE Systems -------------------------------
(* The documented constructors of arrays and test systems: shape and exact entries.  *)
(* Rows and columns count from 1.                                                     *)
EXTENDS IA
LOCAL One == Pt("1")
LOCAL Zero == Pt("0")
\* eye(N, M, k): ones on the k-th diagonal
EyeEntry(k, i, j) == IF j - i = k THEN One ELSE Zero
\* diag of a vector of n intervals: order of the matrix, entries
LOCAL AbsN(k) == IF k < 0 THEN -k ELSE k
DiagSize(n, k) == n + AbsN(k)
DiagEntry(v, k, i, j) == IF j - i = k THEN v[IF k >= 0 THEN i ELSE j] ELSE Zero
\* the k-th diagonal of an n x m matrix: its length and the place of its p-th element
LOCAL MinN(a, b) == IF a <= b THEN a ELSE b
LOCAL MaxN(a, b) == IF a >= b THEN a ELSE b
DiagLen(n, m, k) == MaxN(0, IF k >= 0 THEN MinN(n, m - k) ELSE MinN(n + k, m))
DiagPlace(k, p) == IF k >= 0 THEN <<p, p + k>> ELSE <<p - k, p>>

\* Neumaier: theta on the diagonal, [0, 2] elsewhere; right-hand side given or [-1, 1]
NeumaierEntry(theta, i, j) == IF i = j THEN Pt(theta) ELSE Iv("0", "2")
NeumaierRhs(lo, hi) == Iv(RMin(lo, hi), RMax(lo, hi))
\* Shary: [n - 1, N] on the diagonal, [alpha - 1, 1 - beta] elsewhere, right-hand side [1 - n, n - 1]
SharyEntry(n, N, alpha, beta, i, j) == IF i = j THEN Iv(RInt(n - 1), N) ELSE Iv(RSub(alpha, "1"), RSub("1", beta))
SharyRhs(n) == Iv(RInt(1 - n), RInt(n - 1))
SharyAllowed(n, N, alpha, beta) == RGe(N, RInt(n - 1)) /\ RLt("0", alpha) /\ RLe(alpha, beta) /\ RLe(beta, "1")
\* Toft: [1 - r, 1 + r] on the diagonal, [k - r, k + r] in the last row and column, right-hand side [1 - R, 1 + R]
LOCAL Around(c, r) == Iv(RSub(c, r), RAdd(c, r))
ToftEntry(n, r, i, j) ==
    IF i = n THEN Around(RInt(j), r) ELSE IF j = n THEN Around(RInt(i), r)
    ELSE IF i = j THEN Around("1", r) ELSE Zero
ToftRhs(r) == Around("1", r)
ToftAllowed(r, q) == RGe(r, "0") /\ RGe(q, "0")
=============================================================================
