------------------------------- MODULE MC_Ralg -------------------------------
(* The protocol explored with every small objective: whatever values and           *)
(* sub-gradients it answers with, the record is the minimum of the values seen,     *)
(* the counters match and exactly the due stops happen.                             *)
EXTENDS Ralg, TLC
CONSTANTS MaxIter, MaxCal, Sims
VARIABLES p, x, g, rec, seen, ncalls, code
vars == <<p, x, g, rec, seen, ncalls, code>>
Vals == {"0", "1/2", "2", "3"}
Grads == {"0", "1"}
O == [tolx |-> "1/2", tolg |-> "1/2", tolf |-> "1/4", nsims |-> Sims, maxiter |-> MaxIter, maxcal |-> MaxCal]
Init == /\ x = <<"0">> /\ p = First(x) /\ rec \in Vals /\ seen = {rec} /\ ncalls = 1 /\ code = 0 /\ g \in {<<t>> : t \in Grads}
Codes == {c \in 1..5 : Allowed(p, c, IF c = 4 THEN p.nit + 1 ELSE IF p.nit < 0 THEN 0 ELSE p.nit, x, g, rec, O, "0", "0")}
Stop == code = 0 /\ Codes # {} /\ code' \in Codes /\ UNCHANGED <<p, x, g, rec, seen, ncalls>>
Call == /\ code = 0 /\ ~Due(p, x, g, rec, O, "0", "0")
        /\ \E f \in Vals, gr \in Grads, end \in BOOLEAN, step \in {"1/4", "1"} :
              LET q == Enter(p, x, rec, Sims) IN
              /\ p' = Called(q, end)
              /\ x' = IF p.last = "end" THEN <<step>> ELSE <<RAdd(x[1], step)>>
              /\ g' = <<gr>> /\ rec' = RMin(rec, f) /\ seen' = seen \cup {f}
        /\ ncalls' = ncalls + 1 /\ code' = 0
Next == Stop \/ Call \/ (code # 0 /\ UNCHANGED vars)
Done == IF p.nit < 0 THEN 0 ELSE p.nit
Record == rec \in seen /\ \A f \in seen : RLe(rec, f)
Counts == /\ p.nit < MaxIter /\ p.cal <= MaxCal + 1 /\ ncalls >= Done + 1
          /\ ncalls <= 1 + (MaxCal + 1) * (p.nit + 1)
NoDeadlock == code = 0 => (Codes # {} \/ ~Due(p, x, g, rec, O, "0", "0"))
DueIsAllowed == Due(p, x, g, rec, O, "0", "0") => Codes # {}
Laws == Record /\ Counts /\ NoDeadlock /\ DueIsAllowed
=============================================================================
