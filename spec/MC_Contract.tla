----------------------------- MODULE MC_Contract -----------------------------
(* Interval iteration as a machine: a box is contracted component by component,    *)
(* in any order, by X_i := X_i cap (b_i - sum a_ij X_j) / a_ii with outward         *)
(* rounding.  Whatever the order and number of steps, no solution of the initial     *)
(* box is lost; the last box is what Gauss-Seidel may return.                        *)
EXTENDS SolSet, TLC
CONSTANTS G, Steps
VARIABLES a, b, X, n
vars == <<a, b, X, n>>
Diag == {Iv("1", "2"), Iv("2", "2"), Iv("-2", "-3/2")}
Off == {Iv("0", "0"), Iv("-1", "1"), Iv("1/2", "1")}
Rs == {Iv("0", "1"), Iv("-1", "2"), Iv("2", "2")}
A == [k |-> "arr", sh |-> <<2, 2>>, v |-> <<a[1], a[2], a[3], a[4]>>]
B == [k |-> "arr", sh |-> <<2>>, v |-> b]
Init == /\ a \in Diag \X Off \X Off \X Diag /\ b \in Rs \X Rs /\ n = 0
        /\ X \in {<<Iv("-3", "3"), Iv("-3", "3")>>, <<Iv("0", "2"), Iv("-1", "4")>>}
Out(x) == Iv(RGridDn(Lo(x), -2), RGridUp(Hi(x), -2))
Empty(x) == RLt(Hi(x), Lo(x))
New(i) == LET j == 3 - i
              row == IF i = 1 THEN <<a[1], a[2]>> ELSE <<a[4], a[3]>>
          IN MeetI(X[i], Out(DivI(SubI(b[i], Out(MulI(row[2], X[j]))), row[1])))
Next == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<a, b>>
        /\ \E i \in 1..2 : ~Empty(X[1]) /\ ~Empty(X[2]) /\ X' = [X EXCEPT ![i] = New(i)]
Grid == {"-2", "-1", "-1/2", "0", "1/4", "1/2", "2/3", "1", "3/2", "2", "3"}
X0s == {<<Iv("-3", "3"), Iv("-3", "3")>>, <<Iv("0", "2"), Iv("-1", "4")>>}
\* points of the initial box: those in the box that contains the present one
NoneLost == \E Z \in X0s : /\ \A i \in 1..2 : Empty(X[i]) \/ Includes(Z[i], X[i])
                           /\ \A x \in Grid \X Grid : (InBoxX(x, Z) /\ InUnited(A, B, x)) => InBoxX(x, X)
=============================================================================
