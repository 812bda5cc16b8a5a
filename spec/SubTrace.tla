------------------------------- MODULE SubTrace -------------------------------
(* Formal solutions: event A, b, tol, res, kept.  When the diagonal dominates the answer    *)
(* has to satisfy A x = b in Kaucher's arithmetic, to rounding.                         *)
EXTENDS TraceKit, LinSys
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1
LOCAL MostOf(S) == CHOOSE m \in S : \A y \in S : RLe(y, m)
DominantRows(A) == \A i \in 1..NRows(A) :
    RGt(MigI(El(A, i, i)), RMul("11/10", RSum([j \in 1..NCols(A) |-> IF j = i THEN "0" ELSE MagI(El(A, i, j))])))
Image(A, x, i) == SumI([j \in 1..NCols(A) |-> MulI(El(A, i, j), x[j])], 1)
Size_(A, b, x, i) == MostOf({MagI(Rhs(b, i)), RSum([j \in 1..NCols(A) |-> RMul(MagI(El(A, i, j)), MagI(x[j]))])})
Clauses(e) ==
    Need(e.kept[1] = e.kept[2], "ArgumentsUnchanged") \cup
    (IF e.res.k # "arr" \/ ~DominantRows(e.A)
     THEN Need(~DominantRows(e.A), "SolvesDominantSystems")
     ELSE IF e.res.sh # <<NCols(e.A)>> \/ \E j \in DOMAIN e.res.v : ~FiniteIv(e.res.v[j]) THEN {"ReturnsAVector"}
     ELSE Need(\A i \in 1..NRows(e.A) :
                  LET y == Image(e.A, e.res.v, i)
                      eps == RAdd(RMul(Size_(e.A, e.b, e.res.v, i), RPow2(-36)),
                              RMul(RMul("4", e.tol), RSum([j \in DOMAIN e.res.v |-> RAdd(RAbs(Lo(e.res.v[j])), RAbs(Hi(e.res.v[j])))])))
                  IN RLe(RAbs(RSub(Lo(y), Lo(Rhs(e.b, i)))), eps) /\ RLe(RAbs(RSub(Hi(y), Hi(Rhs(e.b, i)))), eps), "FormalSolution"))
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
