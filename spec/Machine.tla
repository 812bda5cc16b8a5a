------------------------------ MODULE Machine ------------------------------
(* The evaluation machine: registers hold intervals, every action applies one *)
(* arithmetic operation.  Beside each interval the machine carries one real   *)
(* number that the program could have computed instead (the witness): exact   *)
(* real arithmetic on some choice of points of the inputs.                    *)
(* The fundamental theorem of interval arithmetic is the invariant Faithful.  *)
EXTENDS Ops

VARIABLES reg, pt
Faithful == \A i \in DOMAIN reg : pt[i] = "none" \/ Member(pt[i], reg[i])

Apply(op, i, j, n, k, r) ==
    /\ Defined(op, reg[i], reg[j])
    /\ Allowed(op, reg[i], reg[j], n, r)
    /\ reg' = [reg EXCEPT ![k] = r]
    /\ pt' = [pt EXCEPT ![k] = IF pt[i] = "none" \/ pt[j] = "none" THEN "none"
                               ELSE Point(op, pt[i], pt[j], n)]
=============================================================================
