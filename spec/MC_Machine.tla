----------------------------- MODULE MC_Machine -----------------------------
(* All programs of a few steps over small inputs, with outward rounding of    *)
(* results to a coarse grid: witnesses stay inside (Faithful), and a machine  *)
(* whose inputs are parts of another's gets results that are parts of its.    *)
EXTENDS Machine, TLC
CONSTANTS Depth, G
VARIABLE steps
Ends == {RInt(i) : i \in -G..G}
Inputs == {v \in {Iv(a, b) : a \in Ends, b \in Ends} : Proper(v)}
Init == /\ reg \in [1..2 -> Inputs] /\ steps = 0
        /\ pt \in {p \in [1..2 -> Ends] : \A i \in 1..2 : Member(p[i], reg[i])}
Rounded(v) == Iv(RGridDn(Lo(v), -1), RGridUp(Hi(v), -1))
Step(op, n) == \E i, j, k \in 1..2 :
    /\ Defined(op, reg[i], reg[j])
    /\ Apply(op, i, j, n, k, Rounded(Exact(op, reg[i], reg[j], n)))
Next == /\ steps < Depth /\ steps' = steps + 1
        /\ \/ Step("add", 0) \/ Step("sub", 0) \/ Step("mul", 0) \/ Step("div", 0)
           \/ Step("neg", 0) \/ Step("abs", 0) \/ Step("pow", 2) \/ Step("pow", 3)
Spec == Init /\ [][Next]_<<reg, pt, steps>>
=============================================================================
