------------------------------ MODULE PureTrace ------------------------------
(* Recorded processes: the user's objects, the results kept, and the process        *)
(* around them, before and after every call.  events:                               *)
(*   start                 heap, world                                              *)
(*   call   f, args, res, own (a result to keep, or "")    heap, held, world        *)
(*   write, renew  o       the user writes into / replaces object o   heap, held    *)
(*   spoil  i              the user writes into result i              heap, held    *)
EXTENDS TraceKit, Pure
VARIABLES heap, held, world, memo
vars == <<run, l, heap, held, world, memo>>
Init == run \in DOMAIN Runs /\ l = 1 /\ heap = [a |-> ""] /\ held = <<>> /\ world = [a |-> ""] /\ memo = <<>>
Now == [heap |-> heap, held |-> held, world |-> world, memo |-> memo]
Named(what, S) == {what \o ToString(x) : x \in S}
Kept(e) == SubSeq(e.held, 1, Len(held))
CallCl(e) ==
    LET v == CallVerdict(Now, e.f, e.args, e.res, e.heap, Kept(e), e.world)
    IN Named("ChangesObject ", v.args) \cup Named("ChangesEarlierResult ", v.held) \cup Named("ChangesProcess ", v.world)
       \cup Need(v.same, "SameArgumentsSameResult")
       \cup Need(Len(e.held) = Len(held) + (IF e.own = "" THEN 0 ELSE 1), "Recorder")
\* what the user writes into one object shows up in no other object and in no result
WriteCl(e) == Named("ObjectsShareStorage ", Moved(heap, e.heap) \ {e.o}) \cup Named("ResultSharesStorage ", Moved(held, e.held))
RenewCl(e) == Named("Recorder ", Moved(heap, e.heap)) \cup Named("Recorder ", Moved(held, e.held))
SpoilCl(e) == Named("ResultSharesStorageWithObject ", Moved(heap, e.heap)) \cup Named("ResultsShareStorage ", Moved(held, e.held) \ {e.i})
Clauses(e) ==
    CASE e.op = "start" -> {}
      [] e.op = "call" -> CallCl(e)
      [] e.op = "write" -> WriteCl(e)
      [] e.op = "renew" -> RenewCl(e)
      [] e.op = "spoil" -> SpoilCl(e)
Step == /\ More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
        /\ heap' = Ev.heap
        /\ held' = IF Ev.op = "start" THEN <<>> ELSE Ev.held
        /\ world' = IF Ev.op \in {"start", "call"} THEN Ev.world ELSE world
        /\ memo' = IF Ev.op = "call" THEN Remember(memo, PKey(Ev.f, Ev.args, heap), Ev.res) ELSE memo
=============================================================================
