------------------------------ MODULE RalgTrace ------------------------------
(* A recorded execution: the calls of the objective (x, f, g) and the return (res) *)
(* or the error.  Where rounding hides whether a line search went on, both          *)
(* continuations are followed: pos is a set of positions, empty when there are too  *)
(* many to follow (then only records and counts are judged).                        *)
EXTENDS TraceKit, Ralg
VARIABLES pos, x, g, rec, xrec, n, tame   \* tame: all answers so far are numbers of ordinary size
vars == <<run, l, pos, x, g, rec, xrec, n, tame>>
O == Runs[run].opt
Init == run \in DOMAIN Runs /\ l = 1 /\ pos = {} /\ x = <<>> /\ g = <<>> /\ rec = "nan" /\ xrec = <<>> /\ n = 0 /\ tame = TRUE
Ordinary1(t) == RFin(t) /\ RLe(RAbs(t), RPow2(100)) /\ (REq(t, "0") \/ RGe(RAbs(t), RPow2(-60)))
Tame(e) == Ordinary1(e.f) /\ (\A j \in DOMAIN e.g : Ordinary1(e.g[j])) /\ \A j \in DOMAIN e.x : RLe(RAbs(e.x[j]), RPow2(100))
Fin(v) == \A j \in DOMAIN v : RFin(v[j])
Slack == "1/1000"
\* what rounding of the points may hide, over k steps
LOCAL Big(v) == RSum([j \in DOMAIN v |-> RAbs(v[j])])
Eps(p, v) == RMul(RAdd(Big(v), Big(p.s)), RMul(RPow2(-52), RInt(2 * (p.cal + 2))))
Noise(e, v, d) == RAdd(RMul(RPow2(-51), RDot([j \in DOMAIN v |-> RAdd(RAbs(v[j]), RAbs(e.x[j]))], [j \in DOMAIN v |-> RAbs(e.g[j])])),
                       RMul(RPow2(-40), RDot([j \in DOMAIN d |-> RAbs(d[j])], [j \in DOMAIN d |-> RAbs(e.g[j])])))
Ends(e) == IF ~(Fin(e.x) /\ Fin(e.g) /\ Fin(x)) THEN {TRUE, FALSE}
           ELSE LET d == Diff(x, e.x) s == RDot(d, e.g) IN
                IF RLe(RAbs(s), Noise(e, x, d)) THEN {TRUE, FALSE} ELSE {RLe(s, "0")}
DueAt(p) == IF Fin(x) /\ Fin(g) /\ Fin(p.s) THEN Due(p, x, g, rec, O, Slack, Eps(p, x)) ELSE p.cal > O.maxcal
Better(f) == RLt(f, rec)

FirstClauses(e) == Need(\A j \in DOMAIN e.x : REq(e.x[j], Runs[run].x0[j]), "FirstCallAtTheStart")
CallClauses(e) ==
    LET alive == {p \in pos : ~DueAt(p)} IN
    Need(pos = {} \/ alive # {}, "ShouldHaveStopped")
    \cup Need(~tame \/ Fin(e.x), "AsksAtRealPoints")
CallNext(e) ==
    LET alive == {p \in pos : ~DueAt(p)}
        from == IF alive = {} THEN pos ELSE alive
        all == {Called(Enter(p, x, rec, O.nsims), end) : p \in from, end \in Ends(e)}
    IN IF Cardinality(all) <= 60 THEN all ELSE {}
ReturnClauses(e) ==
    IF e.res.k # "seq" \/ Len(e.res.v) # 5 \/ e.res.v[1].k # "narr" \/ \E i \in 2..5 : e.res.v[i].k # "num" THEN {"ReturnsFive"}
    ELSE LET xr == e.res.v[1].v fr == e.res.v[2].v
             nit == RToInt(e.res.v[3].v) nc == RToInt(e.res.v[4].v) code == RToInt(e.res.v[5].v)
         IN Need(SameNum(fr, rec), "ValueIsTheLeastSeen")
            \cup Need(Len(xr) = Len(xrec) /\ \A j \in DOMAIN xr : SameNum(xr[j], xrec[j]), "PointOfTheLeastValue")
            \cup Need(nc = n, "CountsItsCalls")
            \cup Need(nit <= O.maxiter /\ nit >= 0, "IterationLimit")
            \cup Need(pos = {} \/ \E p \in pos : IF Fin(x) /\ Fin(g) /\ Fin(p.s) THEN Allowed(p, code, nit, x, g, rec, O, Slack, Eps(p, x))
                                     ELSE Allowed([p EXCEPT !.s = [j \in DOMAIN x |-> "0"]], code, nit, [j \in DOMAIN x |-> "1000000"],
                                                  [j \in DOMAIN x |-> "1000000"], rec, O, Slack, "0"), "ExitCode")
            \cup Need(e.kept, "StartPointUnchanged")
Clauses(e) == CASE e.op = "call" -> IF n = 0 THEN FirstClauses(e) ELSE CallClauses(e)
                [] e.op = "return" -> ReturnClauses(e)
                [] e.op = "raise" -> Need(e.same, "ErrorPassedOn") \cup Need(e.kept, "StartPointUnchanged")
Step == /\ More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
        /\ IF Ev.op # "call" THEN UNCHANGED <<pos, x, g, rec, xrec, n, tame>>
           ELSE /\ n' = n + 1 /\ tame' = (tame /\ Tame(Ev)) /\ x' = Ev.x /\ g' = Ev.g
                /\ pos' = IF n = 0 THEN {First(Ev.x)} ELSE CallNext(Ev)
                /\ IF n = 0 \/ Better(Ev.f) THEN rec' = Ev.f /\ xrec' = Ev.x ELSE UNCHANGED <<rec, xrec>>
=============================================================================
