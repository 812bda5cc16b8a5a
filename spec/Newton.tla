-------------------------------- MODULE Newton --------------------------------
(* The subdifferential Newton method as a machine over exact numbers.  A state is a  *)
(* vector x = (lower ends, upper ends) of the immersion space; a step solves with the  *)
(* Jacobian of x -> A x at x, chosen by the signs of the operands.                     *)
EXTENDS IA

LOCAL P(x) == RGe(Lo(x), "0") /\ RGe(Hi(x), "0") /\ ~(REq(Lo(x), "0") /\ REq(Hi(x), "0"))
LOCAL N(x) == RLe(Lo(x), "0") /\ RLe(Hi(x), "0") /\ ~(REq(Lo(x), "0") /\ REq(Hi(x), "0"))
LOCAL Z(x) == ~P(x) /\ ~N(x)
\* <<c_ll, c_lh, c_hl, c_hh>>: ends of g h as linear forms of the ends of h near h
Slopes(g, h) ==
    LET a == Lo(g) b == Hi(g) l == Lo(h) u == Hi(h) IN
    CASE P(g) -> IF P(h) THEN <<a, "0", "0", b>> ELSE IF N(h) THEN <<b, "0", "0", a>>
                 ELSE IF Proper(h) THEN <<b, "0", "0", b>> ELSE <<a, "0", "0", a>>
      [] N(g) -> IF P(h) THEN <<"0", a, b, "0">> ELSE IF N(h) THEN <<"0", b, a, "0">>
                 ELSE IF Proper(h) THEN <<"0", a, a, "0">> ELSE <<"0", b, b, "0">>
      [] Z(g) /\ Proper(g) -> IF P(h) THEN <<"0", a, "0", b>> ELSE IF N(h) THEN <<b, "0", a, "0">>
                 ELSE IF Proper(h) THEN (IF RLt(RMul(a, u), RMul(b, l)) THEN <<"0", a>> ELSE <<b, "0">>)
                                        \o (IF RGt(RMul(a, l), RMul(b, u)) THEN <<a, "0">> ELSE <<"0", b>>)
                 ELSE <<"0", "0", "0", "0">>
      [] OTHER -> IF P(h) THEN <<a, "0", b, "0">> ELSE IF N(h) THEN <<"0", b, "0", a>>
                 ELSE IF Proper(h) THEN <<"0", "0", "0", "0">>
                 ELSE (IF RGt(RMul(a, l), RMul(b, u)) THEN <<a, "0">> ELSE <<"0", b>>)
                      \o (IF RLt(RMul(a, u), RMul(b, l)) THEN <<"0", a>> ELSE <<b, "0">>)
\* product is homogeneous, so it equals its slopes applied to h
Euler(g, h) == LET s == Slopes(g, h) p == MulDef(g, h) IN
               /\ REq(Lo(p), RAdd(RMul(s[1], Lo(h)), RMul(s[2], Hi(h))))
               /\ REq(Hi(p), RAdd(RMul(s[3], Lo(h)), RMul(s[4], Hi(h))))

\* A: n x n matrix of intervals (function of i, j); x: sequence of n intervals
Apply(A, x, n) == [i \in 1..n |-> SumI([j \in 1..n |-> MulDef(A[i][j], x[j])], 1)]
Jacobian(A, x, n) ==
    [r \in 1..2 * n |-> [c \in 1..2 * n |->
        LET i == IF r <= n THEN r ELSE r - n
            j == IF c <= n THEN c ELSE c - n
            s == Slopes(A[i][j], x[j])
        IN s[(IF r <= n THEN 0 ELSE 2) + (IF c <= n THEN 1 ELSE 2)]]]

\* Gauss-Jordan elimination on an augmented matrix; <<>> when singular
RECURSIVE Reduce(_, _, _)
Reduce(M, k, n) ==
    IF k > n THEN [i \in 1..n |-> M[i][n + 1]]
    ELSE LET piv == {i \in k..n : ~REq(M[i][k], "0")} IN
         IF piv = {} THEN <<>>
         ELSE LET p == CHOOSE i \in piv : \A j \in piv : i <= j
                  S == [M EXCEPT ![k] = M[p], ![p] = M[k]]
                  row == [c \in 1..n + 1 |-> RDiv(S[k][c], S[k][k])]
              IN Reduce([i \in 1..n |-> IF i = k THEN row ELSE [c \in 1..n + 1 |-> RSub(S[i][c], RMul(S[i][k], row[c]))]], k + 1, n)
Solve(M, r, n) == Reduce([i \in 1..n |-> M[i] \o <<r[i]>>], 1, n)

Pack(v, n) == [i \in 1..n |-> Iv(v[i], v[n + i])]
Residual(A, b, x, n) == [i \in 1..n |-> LET y == Apply(A, x, n)[i] IN Iv(RSub(Lo(y), Lo(b[i])), RSub(Hi(y), Hi(b[i])))]
ZeroVec(r, n) == \A i \in 1..n : REq(Lo(r[i]), "0") /\ REq(Hi(r[i]), "0")
Ends(x, n) == [i \in 1..2 * n |-> IF i <= n THEN Lo(x[i]) ELSE Hi(x[i - n])]
StepFrom(A, b, x, n) == LET d == Solve(Jacobian(A, x, n), Ends(Residual(A, b, x, n), n), 2 * n) IN
                        IF d = <<>> THEN <<>> ELSE Pack([i \in 1..2 * n |-> RSub(Ends(x, n)[i], d[i])], n)
\* the start: the system of the middles
Start(A, b, n) ==
    LET m(i, j) == Mid(A[i][j]) IN
    Pack(Solve([r \in 1..2 * n |-> [c \in 1..2 * n |->
        LET i == IF r <= n THEN r ELSE r - n
            j == IF c <= n THEN c ELSE c - n
            same == (r <= n) = (c <= n)
        IN IF (RGe(m(i, j), "0")) = same THEN m(i, j) ELSE "0"]], Ends(b, n), 2 * n), n)
=============================================================================
