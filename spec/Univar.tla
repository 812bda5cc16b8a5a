-------------------------------- MODULE Univar --------------------------------
(* Polynomials of one variable: sequences of coefficients, the constant first.    *)
(* Exact values, critical points to 2^-40, ranges over intervals; the orthogonal   *)
(* bases by their three-term recurrences.                                         *)
EXTENDS IA, TLC

RECURSIVE UHorner(_, _, _)
UHorner(c, t, j) == IF j > Len(c) THEN "0" ELSE RAdd(c[j], RMul(t, UHorner(c, t, j + 1)))
UAt(c, t) == UHorner(c, t, 1)
UDer(c) == IF Len(c) <= 1 THEN <<>> ELSE TLCEval([j \in 1..(Len(c) - 1) |-> RMul(RInt(j), c[j + 1])])
LOCAL UCoef(c, j) == IF j \in DOMAIN c THEN c[j] ELSE "0"
UPlus(c, d) == TLCEval([j \in 1..(IF Len(c) > Len(d) THEN Len(c) ELSE Len(d)) |-> RAdd(UCoef(c, j), UCoef(d, j))])
UTimes(s, c) == TLCEval([j \in DOMAIN c |-> RMul(s, c[j])])
UShift(c) == <<"0">> \o c                                   \* times the variable
UAbsAt(c, t) == UAt([j \in DOMAIN c |-> RAbs(c[j])], t)

\* a sign change of c between p and q, located on the grid of multiples of 2^-40
LOCAL Opposite(u, v) == (RLt(u, "0") /\ RGt(v, "0")) \/ (RGt(u, "0") /\ RLt(v, "0"))
RECURSIVE UBisect(_, _, _, _)
UBisect(c, p, q, n) ==
    IF n = 0 THEN p
    ELSE LET m == RGridDn(RDiv(RAdd(p, q), "2"), -44)
             y == UAt(c, m)
         IN IF REq(y, "0") THEN m ELSE IF Opposite(UAt(c, p), y) THEN UBisect(c, p, m, n - 1) ELSE UBisect(c, m, q, n - 1)
LOCAL Sorted(S) == LET RECURSIVE Down(_)
                       Down(T) == IF T = {} THEN <<>> ELSE LET m == CHOOSE t \in T : \A u \in T : RLe(t, u) IN <<m>> \o Down(T \ {m})
                   IN Down(S)
\* the points of X where c changes its sign (and the ends): between two neighbours of URoots of the
\* derivative the polynomial is monotone
RECURSIVE URoots(_, _)
URoots(c, X) ==
    IF Len(c) <= 1 THEN {}
    ELSE LET k == TLCEval(Sorted(URoots(UDer(c), X) \cup {Lo(X), Hi(X)}))
         IN {UBisect(c, k[j], k[j + 1], 46) : j \in {j \in 1..(Len(k) - 1) : Opposite(UAt(c, k[j]), UAt(c, k[j + 1]))}}
            \cup {k[j] : j \in {j \in DOMAIN k : REq(UAt(c, k[j]), "0")}}
LOCAL UMin(S) == CHOOSE m \in S : \A y \in S : RLe(m, y)
LOCAL UMax(S) == CHOOSE m \in S : \A y \in S : RLe(y, m)
URange(c, X) == LET v == TLCEval({UAt(c, t) : t \in URoots(UDer(c), X) \cup {Lo(X), Hi(X)}}) IN Iv(UMin(v), UMax(v))

\* the k-th polynomial of a basis
Bases == {"monom", "chebyshev", "hermite", "laguerre", "legendre"}
RECURSIVE BasisPoly(_, _)
BasisPoly(b, k) ==
    IF k = 0 THEN <<"1">>
    ELSE IF k = 1 THEN CASE b \in {"monom", "chebyshev", "legendre"} -> <<"0", "1">>
                         [] b = "hermite" -> <<"0", "2">>
                         [] b = "laguerre" -> <<"1", "-1">>
    ELSE LET n == RInt(k - 1)
             p == BasisPoly(b, k - 1)
             q == BasisPoly(b, k - 2)
             xp == UShift(p)
         IN CASE b = "monom" -> xp
              [] b = "chebyshev" -> UPlus(UTimes("2", xp), UTimes("-1", q))
              [] b = "hermite" -> UPlus(UTimes("2", xp), UTimes(RMul("-2", n), q))
              [] b = "legendre" -> UPlus(UTimes(RDiv(RAdd(RMul("2", n), "1"), RInt(k)), xp), UTimes(RNeg(RDiv(n, RInt(k))), q))
              [] b = "laguerre" -> UPlus(UPlus(UTimes(RDiv(RAdd(RMul("2", n), "1"), RInt(k)), p), UTimes(RDiv("-1", RInt(k)), xp)),
                                         UTimes(RNeg(RDiv(n, RInt(k))), q))
BasisTable == TLCEval([b \in Bases |-> [k \in 1..6 |-> BasisPoly(b, k)]])
=============================================================================
