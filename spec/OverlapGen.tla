---------------------------- MODULE OverlapGen ----------------------------
(* Schedules for two or three threads: who runs, and for how many lines of the      *)
(* library, before it hands over.  Short turns alternate with long ones, so that      *)
(* calls meet at their beginnings, in loops and at their ends.                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist
R(S) == RandomElement(S)
Turns == <<1, 1, 2, 3, 5, 8, 13, 21, 40, 90, 200, 600>>
Init == hist = <<>>
Last == hist[Len(hist)].t
Next == /\ Len(hist) < Depth
        /\ \E t \in {IF hist = <<>> THEN R(1..3) ELSE R((1..3) \ {Last})}, q \in {Turns[R(1..12)]} :
              hist' = Append(hist, [t |-> t, q |-> q])
\* a turn is an alternation: nobody hands over to himself
Alternates == \A i \in 1..(Len(hist) - 1) : hist[i].t # hist[i + 1].t
Written == Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
GenInv == Alternates /\ Written
=============================================================================
