------------------------------ MODULE FenvTrace ------------------------------
(* What user code sees of Fenv: the mode before and after every call, and inside *)
(* call-backs.  The probes are sums computed by the processor after the call.    *)
EXTENDS TraceKit
VARIABLE mode
vars == <<run, l, mode>>
Init == run \in DOMAIN Runs /\ l = 1 /\ mode = "nearest"
Clauses(e) ==
    Need(e.before = mode, "ModeChangedBetweenCalls")
    \cup Need(e.after = e.before, "ModeAfterCall")
    \cup Need(\A m \in SeqToSet(e.inside) : m = e.before, "ModeInsideCallBack")
    \cup Need(\A i \in DOMAIN e.probes : REq(e.probes[i][3], F64Nr(RAdd(e.probes[i][1], e.probes[i][2]))), "SumsRoundToNearest")
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ mode' = "nearest" /\ UNCHANGED run
=============================================================================
