----------------------------- MODULE CallsTrace -----------------------------
(* Calls of the library, judged by module Calls.  event: op, s, opt, x, p as       *)
(* there; err (exception, "" if answered), out (shape of the answer, or <<-1>>),    *)
(* ok (the driver chose data for which a well formed call has an answer), same      *)
(* (the arguments are what they were).                                               *)
EXTENDS TraceKit, Calls
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1
Clauses(e) ==
    (IF WellFormed(e)
     THEN (IF e.err # "" THEN Need(~e.ok, "WellFormedCallIsAnswered")
           ELSE Need(Answer(e) = Absent \/ Answer(e) = e.out, "ShapeOfTheAnswer"))
     ELSE Need(e.err # "", "IllFormedCallIsRefused") \cup Need(e.err # "Timeout", "RefusedAtOnce"))
    \cup Need(e.same, "ArgumentsUnchanged")
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
