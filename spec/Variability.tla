----------------------------- MODULE Variability -----------------------------
(* The variability measure of an interval system A x = b with at most two unknowns      *)
(* (Shary):  sqrt(n) * max Tol * min cond(A') * |arg max Tol| / |mag b|  over the corner   *)
(* matrices A' of A.  Condition numbers are roots, so the exact statements are about         *)
(* squares: a square k of a condition number is described by k + 2 + 1/k.                    *)
EXTENDS Rat, Integers, Sequences, TLC
\* A: rows of intervals <<lo, hi>>; a corner matrix: rows of numbers
Corners(A) == LET n == Len(A) m == Len(A[1]) IN
              {TLCEval([i \in 1..n |-> [j \in 1..m |-> A[i][j][c[i][j]]]]) : c \in [1..n -> [1..m -> {1, 2}]]}
Col(B, j) == [i \in DOMAIN B |-> B[i][j]]
Gram(B) == LET p == RDot(Col(B, 1), Col(B, 1)) q == RDot(Col(B, 1), Col(B, 2)) r == RDot(Col(B, 2), Col(B, 2)) IN <<p, q, r>>
Sq(x) == RMul(x, x)
Turned(B) == TLCEval([j \in DOMAIN B[1] |-> Col(B, j)])
\* of a number k >= 1
SignatureOf(k) == RAdd(RAdd(k, "2"), RDiv("1", k))
\* k + 2 + 1/k for k the square of the condition number ("inf" for a singular matrix).  More than two
\* unknowns: orthogonal columns only
LOCAL OfNorms(q) == LET big == CHOOSE x \in q : \A y \in q : RLe(y, x) small == CHOOSE x \in q : \A y \in q : RLe(x, y) IN
                    IF REq(small, "0") THEN "inf" ELSE SignatureOf(RDiv(big, small))
SignatureTall(B) ==
    IF Len(B[1]) = 2
    THEN LET g == Gram(B) d == RSub(RMul(g[1], g[3]), Sq(g[2])) IN IF REq(d, "0") THEN "inf" ELSE RDiv(Sq(RAdd(g[1], g[3])), d)
    ELSE OfNorms({RDot(Col(B, j), Col(B, j)) : j \in DOMAIN B[1]})
Orthogonal(B) == \A i, j \in DOMAIN B[1] : i = j \/ REq(RDot(Col(B, i), Col(B, j)), "0")
Signature(B) == IF Len(B) < Len(B[1]) THEN SignatureTall(Turned(B)) ELSE SignatureTall(B)
LeastSignature(S) == CHOOSE s \in S : \A t \in S : RLe(s, t)
\* the square of the condition number that a value v of the measure stands for
Norm2(v) == RDot(v, v)
CondOf(v, n, f, x, magb) == RDiv(RMul(Sq(v), Norm2(magb)), RMul(RMul(RInt(n), Sq(f)), Norm2(x)))
=============================================================================
