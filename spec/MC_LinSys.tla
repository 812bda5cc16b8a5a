------------------------------ MODULE MC_LinSys ------------------------------
(* The functionals are non-negative exactly on the solution sets, on every        *)
(* system of one equation over small data; the row range is the range over        *)
(* point systems.                                                                 *)
EXTENDS LinSys, TLC
CONSTANTS G, M
VARIABLES a, b, x
vars == <<a, b, x>>
Ivs == {Iv(RInt(p), RInt(q)) : <<p, q>> \in {<<p, q>> \in (-G..G) \X (-G..G) : p <= q}}
Points == {"-2", "-1", "0", "1/2", "1"}
Init == a \in [1..M -> Ivs] /\ b \in Ivs /\ x \in [1..M -> Points]
Next == UNCHANGED vars
A == [k |-> "arr", sh |-> <<1, M>>, v |-> a]
B == [k |-> "arr", sh |-> <<1>>, v |-> <<b>>]
Choices == [1..M -> {1, 2}]
Sums == {RSum([j \in 1..M |-> RMul(a[j][c[j]], x[j])]) : c \in Choices}
RowIsRange == LET r == RowAt(A, 1, x) IN Lo(r) \in Sums /\ Hi(r) \in Sums /\ \A s \in Sums : Member(s, r)
Signs == \A f \in {"Tol", "Uni", "Uss"} : RGe(Functional(f, A, B, x, <<"3">>), "0") <=> InSet(f, A, B, x)
\* Uss = Uni where it is negative or on the border; the sets are the same; Tol <= Uni <= Uss
Order == LET t(f) == Functional(f, A, B, x, <<"1">>) IN
         RLe(t("Tol"), t("Uni")) /\ RLe(t("Uni"), t("Uss")) /\ RLe(t("Uni"), Rad(b))
Cheb == LET c == Functional("Cheb", A, B, x, <<"1">>) IN
        \A s \in Sums : RLe(RAbs(RSub(Lo(b), s)), c) /\ RLe(RAbs(RSub(Hi(b), s)), c)
Laws == RowIsRange /\ Signs /\ Order /\ Cheb
=============================================================================
