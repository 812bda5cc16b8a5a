-------------------------------- MODULE MC_Tol --------------------------------
(* On every small system: the box around a tolerable point whose radius is the least *)
(* of Tol's constituents over the rows' magnitudes consists of tolerable points, and   *)
(* a point p - q of the linear program in 2 m unknowns is a tolerable point.            *)
EXTENDS LinSys, TLC
CONSTANT Deep
VARIABLES a, b, y, w
vars == <<a, b, y, w>>
Ivs == {Iv("0", "1"), Iv("-1", "2"), Iv("-2", "-1")} \cup (IF Deep THEN {Iv("1", "1"), Iv("0", "0")} ELSE {})
Rs == {Iv("-2", "2"), Iv("-1", "3"), Iv("0", "4")}
Init == a \in Ivs /\ b = <<>> /\ y = <<>> /\ w = <<>>
Next == \/ /\ b = <<>> /\ \E r \in Rs \X Rs : b' = r
           /\ UNCHANGED <<a, y, w>>
        \/ /\ b # <<>> /\ y = <<>> /\ y' \in {"-1/2", "0", "1"} \X {"-1/2", "0", "1"} /\ w' \in {"1", "2"} \X {"1", "1/2"} \X Ivs \X Ivs \X Ivs
           /\ UNCHANGED <<a, b>>
A == [k |-> "arr", sh |-> <<2, 2>>, v |-> <<a, w[3], w[4], w[5]>>]
B == [k |-> "arr", sh |-> <<2>>, v |-> b]
Den(i) == RAdd(RMul(MagI(El(A, i, 1)), w[1]), RMul(MagI(El(A, i, 2)), w[2]))
Used == {i \in 1..2 : ~REq(Den(i), "0")}
Radii == {RDiv(TolRow(A, B, y, i), Den(i)) : i \in Used}
R == CHOOSE m \in Radii : \A t \in Radii : RLe(m, t)
BoxInside == (y # <<>> /\ Used # {} /\ InTolerable(A, B, y)) =>
    \A s \in {"-1", "1"} \X {"-1", "1"} : InTolerable(A, B, <<RAdd(y[1], RMul(s[1], RMul(R, w[1]))), RAdd(y[2], RMul(s[2], RMul(R, w[2])))>>)
Pos(x) == RMax(x, "0")
Program(x) == \A i \in 1..2 :
    LET p == [j \in 1..2 |-> Pos(x[j])]
        q == [j \in 1..2 |-> Pos(RNeg(x[j]))]
        up == RSub(RSum([j \in 1..2 |-> RMul(Hi(El(A, i, j)), p[j])]), RSum([j \in 1..2 |-> RMul(Lo(El(A, i, j)), q[j])]))
        dn == RSub(RSum([j \in 1..2 |-> RMul(Lo(El(A, i, j)), p[j])]), RSum([j \in 1..2 |-> RMul(Hi(El(A, i, j)), q[j])]))
    IN RLe(up, Hi(b[i])) /\ RGe(dn, Lo(b[i]))
ProgramIsTheSet == y # <<>> => (Program(y) <=> InTolerable(A, B, y))
=============================================================================
