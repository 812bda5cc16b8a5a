------------------------------- MODULE MC_Rows -------------------------------
(* Preparing rows changes no set: all small systems of two rows in two unknowns,        *)
(* and points of a grid.                                                                  *)
EXTENDS Rows, TLC
CONSTANTS Top, Grid
VARIABLES A, b, d
Num == -Top..Top
N(i) == RInt(i)
Vec == [1..2 -> Num]
Init == A \in [1..2 -> Vec] /\ b = <<0, 0>> /\ d = <<0, 0>>
Next == b = <<0, 0>> /\ d = <<0, 0>> /\ b' \in [1..2 -> Num] /\ d' \in [1..2 -> {-1, 0, Top + 1}] /\ UNCHANGED A
R == [i \in 1..2 |-> [j \in 1..2 |-> N(A[i][j])]]
B == [i \in 1..2 |-> N(b[i])]
\* Top + 1 stands for no limit
U == [i \in 1..2 |-> IF d[i] > Top THEN "inf" ELSE N(d[i])]
Points == {<<RDiv(N(p), "2"), RDiv(N(q), "2")>> : p, q \in -Grid..Grid}
\* dropping repeated rows, and rows without unknowns from a possible system
Three == <<R[1], R[2], R[1]>>
ThreeB == <<B[1], B[2], B[1]>>
Pairs == [i \in 1..3 |-> Cells(Three[i] \o <<ThreeB[i]>>, 3)]
SameSet == LET at == Firsts(Pairs) IN
           /\ Len(at) = (IF R[1] = R[2] /\ B[1] = B[2] THEN 1 ELSE 2)
           /\ \A x \in Points : AllGe(Three, ThreeB, x) = AllGe(Pick(Three, at), Pick(ThreeB, at), x)
Cleared == LET at == NonZero(R) IN
           \A x \in Points : AllGe(R, B, x) = (Possible(R, B) /\ AllGe(Pick(R, at), Pick(B, at), x))
\* the normal form describes the constraint
NormalForm == LET F == Normal(R, B, U) n == [i \in DOMAIN F |-> F[i].c] e == [i \in DOMAIN F |-> F[i].d] IN
              \A x \in Points : /\ Keeps(R, B, U, x) = AllLe(n, e, x)
                                /\ REq(Penalty(n, e, "3", x), "0") = AllLe(n, e, x)
                                /\ (Beyond(n, e, x) = {}) = AllLe(n, e, x)
\* a weight above every multiplier makes the penalty exact: for gradients from the cone of the two rows,
\* the penalised function is nowhere above its value at the corner
Det == A[1][1] * A[2][2] - A[1][2] * A[2][1]
Corner == <<RDiv(N(b[1] * A[2][2] - b[2] * A[1][2]), N(Det)), RDiv(N(A[1][1] * b[2] - A[2][1] * b[1]), N(Det))>>
Exact == Det = 0 \/
    \A p, q \in 0..2 :
        LET g == [j \in 1..2 |-> RAdd(RMul(N(p), R[1][j]), RMul(N(q), R[2][j]))]
            mu == IF p > q THEN p ELSE q
            M == Multipliers(R)
        IN /\ \E m \in M : RLe(RInt(mu * mu), RMul(m, RDot(g, g)))
           /\ \A x \in Points : RLe(RSub(RDot(g, x), Penalty(R, B, N(mu), x)), RDot(g, Corner))
=============================================================================
