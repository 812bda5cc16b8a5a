-------------------------------- MODULE SolSet --------------------------------
(* Boxes and solution sets.  W is a sequence of points of the space; a point is   *)
(* a witness of the united (tolerable) set when Oettli-Prager's (Rohn's)           *)
(* inequalities hold exactly, which the specification checks itself.               *)
EXTENDS LinSys

LOCAL MaxOf(S) == CHOOSE m \in S : \A y \in S : RLe(y, m)
\* res: an observed box of dimension m
IsBox(res, m) == res.k = "arr" /\ res.sh = <<m>> /\ \A j \in 1..m : ~NanIv(res.v[j])
BoxMag(res) == LET f == {t \in {MagI(res.v[j]) : j \in DOMAIN res.v} : RFin(t)} \cup {"1"} IN MaxOf(f)
InBox(w, res, slack) == \A j \in DOMAIN w : RLe(RSub(Lo(res.v[j]), slack), w[j]) /\ RLe(w[j], RAdd(Hi(res.v[j]), slack))
InBoxX(w, X) == X = <<>> \/ \A j \in DOMAIN w : Member(w[j], X[j])
Encloses(res, W, X, slack) == \A k \in DOMAIN W : InBoxX(W[k], X) => InBox(W[k], res, slack)
\* every face of the box is reached by a witness, up to slack
Touched(res, W, slack, comps) ==
    \A j \in comps : /\ \E k \in DOMAIN W : RGe(Hi(res.v[j]), W[k][j]) /\ RLe(RSub(Hi(res.v[j]), W[k][j]), slack)
                     /\ \E k \in DOMAIN W : RLe(Lo(res.v[j]), W[k][j]) /\ RLe(RSub(W[k][j], Lo(res.v[j])), slack)
Near(res, W, slack, comps) ==
    \A j \in comps : /\ \E k \in DOMAIN W : RLe(RSub(Hi(res.v[j]), W[k][j]), slack)
                     /\ \E k \in DOMAIN W : RLe(RSub(W[k][j], Lo(res.v[j])), slack)

Square(A) == A.sh[1] = A.sh[2]
\* strictly dominant diagonal by rows and by columns, with some room
Dominant(A) ==
    /\ Square(A)
    /\ \A i \in 1..NRows(A) :
          /\ RGt(RMul(MigI(El(A, i, i)), "9/10"), RSum([j \in 1..NCols(A) |-> IF j = i THEN "0" ELSE MagI(El(A, i, j))]))
          /\ RGt(RMul(MigI(El(A, i, i)), "9/10"), RSum([j \in 1..NCols(A) |-> IF j = i THEN "0" ELSE MagI(El(A, j, i))]))
UnitMiddle(A) == Square(A) /\ \A i \in 1..NRows(A), j \in 1..NCols(A) : REq(Mid(El(A, i, j)), IF i = j THEN "1" ELSE "0")
=============================================================================
