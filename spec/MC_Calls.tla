------------------------------ MODULE MC_Calls ------------------------------
(* The contract against what it is for: a call is well formed exactly when there  *)
(* is an unknown for which the equations make sense.                                *)
EXTENDS Calls, TLC
CONSTANT Max
VARIABLES op, s, opt
Sizes == 1..Max
Shapes == {<<n>> : n \in Sizes} \cup {<<n, m>> : n \in Sizes, m \in Sizes}
Mats == {<<n, m>> : n \in Sizes, m \in Sizes}
Vecs == {<<n>> : n \in Sizes}
Opts == {"uni", "tol", "Tol", "Uni", "ChebNorm", "numbers", "interval", "other"}
None == "none"
Init == op = None /\ s = <<>> /\ opt = None
Next == \/ op = None /\ op' \in Square \cup {"Rohn", "Neumaier", "maximize", "WILS", "matmul", "lineqs", "IntLinIncR2", "lineqs3D", "IntLinIncR3"} /\ UNCHANGED <<s, opt>>
        \/ op # None /\ opt = None /\ opt' \in Opts /\ UNCHANGED <<op, s>>
        \/ opt # None /\ Len(s) = 0 /\ s' \in {<<a, b>> : a \in IF op = "matmul" THEN Shapes ELSE Mats, b \in Shapes} /\ UNCHANGED <<op, opt>>
        \/ opt # None /\ Len(s) = 2 /\ op \in {"Neumaier", "maximize", "WILS"} /\ s' \in {s \o <<c, d>> : c \in Vecs \cup {Absent}, d \in Vecs \cup {Absent} \cup (IF op = "maximize" THEN Mats ELSE {})} /\ UNCHANGED <<op, opt>>
        \/ op = "maximize" /\ Len(s) = 4 /\ s' \in {s \o <<c, d>> : c \in Vecs \cup {Absent}, d \in Vecs \cup {Absent}} /\ UNCHANGED <<op, opt>>
Whole == Len(s) = (CASE op = "maximize" -> 6 [] op \in {"Neumaier", "WILS"} -> 4 [] OTHER -> 2)
Call == [op |-> op, s |-> s, opt |-> opt]
Solvers == Square \cup {"Rohn", "Neumaier", "maximize", "WILS"}
OptionOk == CASE op = "Rohn" -> opt \in {"uni", "tol"} [] op = "maximize" -> opt \in {"Tol", "Uni", "ChebNorm"}
              [] op = "WILS" -> opt \in {"Tol", "Uni"} [] op \in {"lineqs", "lineqs3D"} -> opt = "numbers"
              [] op \in {"IntLinIncR2", "IntLinIncR3"} -> opt \in {"uni", "tol"} [] OTHER -> TRUE
\* an unknown vector of the right length: A x is defined and has the shape of b
Unknown(x) == Conformable(s[1], x) /\ Product(s[1], x) = s[2]
Equations == Whole /\ op \in Solvers =>
    (WellFormed(Call) <=>
        /\ OptionOk
        /\ \E n \in 1..Max : LET x == <<n>> IN
             /\ Unknown(x)
             /\ (op \in Square => x = s[2])                         \* as many equations as unknowns
             /\ (op = "Rohn" /\ opt = "uni" => n <= s[2][1])         \* not fewer
             /\ (op \in {"Neumaier", "maximize", "WILS"} => (s[3] = Absent /\ op # "Neumaier") \/ s[3] = x)
             /\ (op = "Neumaier" => s[4] = Absent \/ s[4] = x)
             /\ (op = "maximize" => s[4] = Absent
                    \/ (Len(s[4]) = 2 /\ Conformable(s[4], x) /\ \A k \in {5, 6} : s[k] = Absent \/ s[k] = Product(s[4], x))))
Answered == Whole /\ op \in Solvers /\ WellFormed(Call) => Unknown(Answer(Call))
Products == op = "matmul" /\ Whole /\ WellFormed(Call) => Len(Answer(Call)) = Len(s[1]) + Len(s[2]) - 2
Pictures == op \in {"lineqs", "IntLinIncR2", "lineqs3D", "IntLinIncR3"} /\ Whole =>
    (WellFormed(Call) <=> OptionOk /\ Unknown(<<IF op \in {"lineqs", "IntLinIncR2"} THEN 2 ELSE 3>>))
=============================================================================
