------------------------------ MODULE MC_Orthant ------------------------------
(* In every orthant the linear rows describe exactly the part of the united and of the *)
(* tolerable solution set that lies there (definitions of LinSys), all small systems.    *)
EXTENDS Polygon, LinSys, Integers, TLC
CONSTANT Deep
VARIABLES sys, x
vars == <<sys, x>>
Ivs == {Iv("0", "1"), Iv("-1", "2"), Iv("-2", "-1"), Iv("1", "1")} \cup (IF Deep THEN {Iv("0", "0"), Iv("-1", "0"), Iv("-1", "-1/2")} ELSE {})
Rs == {Iv("-2", "2"), Iv("1", "3"), Iv("0", "0"), Iv("-2", "-1")}
Pts == {"-2", "-1", "-1/2", "0", "1/3", "1", "2"}
Init == sys = <<>> /\ x = <<>>
Next == \/ sys = <<>> /\ sys' \in Ivs \X Ivs \X Ivs \X Rs /\ UNCHANGED x
        \/ sys # <<>> /\ x = <<>> /\ x' \in Pts \X Pts \X (IF Deep THEN Pts ELSE {"-1", "2"}) /\ UNCHANGED sys
SysA == [k |-> "arr", sh |-> <<1, 3>>, v |-> <<sys[1], sys[2], sys[3]>>]
SysB == [k |-> "arr", sh |-> <<1>>, v |-> <<sys[4]>>]
Signs == {"1", "-1"} \X {"1", "-1"} \X {"1", "-1"}
In(s) == \A j \in 1..3 : RGe(RMul(s[j], x[j]), "0")
RowsAreTheSet == x # <<>> => \A s \in Signs :
    /\ Feasible(OrthantRows(<<<<sys[1], sys[2], sys[3]>>>>, <<sys[4]>>, s, "tol"), x) <=> (In(s) /\ InTolerable(SysA, SysB, x))
    /\ Feasible(OrthantRows(<<<<sys[1], sys[2], sys[3]>>>>, <<sys[4]>>, s, "uni"), x) <=> (In(s) /\ InUnited(SysA, SysB, x))
CornersAgree == (sys # <<>> /\ x = <<>>) => \A s \in {<<"1", "1", "-1">>, <<"-1", "-1", "1">>} :
    LET C == OrthantRows(<<<<sys[1], sys[2], sys[3]>>>>, <<sys[4]>>, s, "uni") \cup Cube(3, "2") IN Corners3(C) = Corners3Def(C)
=============================================================================
