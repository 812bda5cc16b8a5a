------------------------------ MODULE OuterTrace ------------------------------
(* Outer estimates of the united solution set.  event: op (method), A, b, X (box   *)
(* the method searches in, <<>> if none), nu (component asked for, 0 = all), W       *)
(* (points), bounded (all faces of the hull are reached by W), tight (the call is     *)
(* one that converges), solve (the preconditioner keeps       *)
(* dominance), res, kept.                                                              *)
EXTENDS TraceKit, SolSet
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1
MagW(W) == LET s == {RAbs(W[k][j]) : <<k, j>> \in {<<p, q>> \in (DOMAIN W) \X (1..Len(W[1])) : TRUE}} \cup {"1"}
           IN CHOOSE m \in s : \A y \in s : RLe(y, m)
Room(e) == CASE e.op \in {"Gauss", "Gauss_Seidel"} -> "0"
              [] e.op \in {"HBR", "Rohn"} -> RMul(IF e.W = <<>> THEN "1" ELSE MagW(e.W), RPow2(-30))
              [] OTHER -> RMul(IF e.W = <<>> THEN "1" ELSE MagW(e.W), RPow2(-22))
\* the part of the points that the answer bounds
Pick(e) == IF e.nu = 0 THEN e.W ELSE [k \in DOMAIN e.W |-> <<e.W[k][e.nu]>>]
Clauses(e) ==
    LET m == NCols(e.A)
        k == IF e.nu = 0 THEN m ELSE 1
        inside == {i \in DOMAIN e.W : InBoxX(e.W[i], e.X)}
        W == [i \in 1..Cardinality(inside) |-> Pick(e)[CHOOSE t \in inside : Cardinality({s \in inside : s < t}) = i - 1]]
    IN Need(\A i \in DOMAIN e.W : InUnited(e.A, e.b, e.W[i]), "OracleWitness")
       \cup Need(e.kept[1] = e.kept[2], "ArgumentsUnchanged")
       \cup (IF e.res.k = "err"
             THEN Need(~(e.solve /\ Dominant(e.A) /\ W # <<>>), "SolvesDominantSystems")
                  \cup Need(e.res.t # "Timeout", "Returns")
                  \cup Need(~(e.op = "PSS" /\ e.bounded), "SolvesRegularSystems")
             ELSE IF ~IsBox(e.res, k) THEN {"ReturnsABox"}
             ELSE Need(Encloses(e.res, W, <<>>, Room(e)), "NoSolutionLost")
                  \cup Need(~(e.bounded /\ W # <<>> /\ (e.tight \/ (e.op = "HBR" /\ UnitMiddle(e.A))))
                            \/ Near(e.res, W, RMul(MagW(e.W), RPow2(-20)), 1..k), "Optimal"))
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
