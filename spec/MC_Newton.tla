------------------------------ MODULE MC_Newton ------------------------------
(* The Newton machine on every small system with a dominant diagonal, proper and     *)
(* improper: no step meets a singular Jacobian, and the machine halts, at the formal    *)
(* solution; slopes describe the product exactly, for all small operands.               *)
EXTENDS Newton, TLC
CONSTANTS Deep, Limit
VARIABLES A, b, x, k
vars == <<A, b, x, k>>
E == {"-3", "-2", "-1", "0", "1", "2", "3"}
All == {Iv(p, q) : <<p, q>> \in E \X E}
ASSUME \A g \in All, h \in All : Euler(g, h)
Diag == {Iv("3", "4"), Iv("4", "3"), Iv("-3", "-5")} \cup (IF Deep THEN {Iv("3", "3"), Iv("-6", "-3")} ELSE {})
Off == {Iv("-1", "2"), Iv("2", "-1"), Iv("1", "2"), Iv("0", "0")} \cup (IF Deep THEN {Iv("-1", "-2"), Iv("2", "2")} ELSE {})
Rs == {Iv("-3", "1"), Iv("2", "-2"), Iv("1", "4")} \cup (IF Deep THEN {Iv("0", "0"), Iv("-1", "-5")} ELSE {})
Init == A \in {<<<<d, "?">>, <<"?", "?">>>> : d \in Diag} /\ b = <<>> /\ x = <<>> /\ k = 0
Next == \/ /\ b = <<>> /\ \E o1, o2 \in Off, d \in Diag, r \in Rs \X Rs :
                A' = <<<<A[1][1], o1>>, <<o2, d>>>> /\ b' = r /\ UNCHANGED <<x, k>>
        \/ /\ b # <<>> /\ x = <<>> /\ x' = Start(A, b, 2) /\ UNCHANGED <<A, b, k>>
        \/ /\ b # <<>> /\ x # <<>> /\ ~ZeroVec(Residual(A, b, x, 2), 2) /\ x' = StepFrom(A, b, x, 2) /\ k' = k + 1 /\ UNCHANGED <<A, b>>
Halts == k <= Limit
Regular == k > 0 => x # <<>>
=============================================================================
