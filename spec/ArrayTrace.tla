------------------------------ MODULE ArrayTrace ------------------------------
(* Behaviours of ArrayMachine replayed in the real code, every array observed    *)
(* after every operation.                                                        *)
(* event: o (operation), op, r (result or error), pool: for every slot            *)
(*   [x contents and shape, nd, len, it (elements met by iteration), a, b ends]   *)
EXTENDS TraceKit, ArrayMachine
VARIABLE pool
vars == <<run, l, pool>>
Init == run \in DOMAIN Runs /\ l = 1 /\ pool = <<>>

Same(x, y) == x.sh = y.sh /\ Len(x.v) = Len(y.v) /\ \A k \in DOMAIN x.v : SameIv(x.v[k], y.v[k])
\* the observed array o agrees with itself in every way of looking at it
Coherent(o) ==
    IF o.x.k # "arr" THEN {"NotAnIntervalArray"} ELSE
    Need(WellFormed(o.x), "ShapeFitsContents")
    \cup Need(o.nd = Len(o.x.sh) /\ (o.x.sh # <<>> => o.len = o.x.sh[1]), "DimensionAndLength")
    \cup Need(o.sh = o.x.sh, "ShapeAttribute")
    \cup Need(o.it.k = "arr" /\ o.it.v = o.x.v, "Iteration")
    \cup Need(o.a.k = "narr" /\ o.b.k = "narr" /\ o.a.sh = o.x.sh /\ o.b.sh = o.x.sh
              /\ \A k \in DOMAIN o.x.v : REq(o.a.v[k], Lo(o.x.v[k])) /\ REq(o.b.v[k], Hi(o.x.v[k])), "Ends")
Judge1(op, a, b, r) == JudgeOp([op |-> op, a |-> a, b |-> b, n |-> 0, r |-> [k |-> "iv", v |-> r]])
Arith(o, x, y, r) ==
    LET out == Broadcast(x.sh, ShapeOf(y)) IN
    IF r.sh # out THEN {"ResultShape"}
    ELSE UNION {Judge1(Base(o.op), BAt(x, k, out), BAt(y, k, out), r.v[k]) : k \in 1..Size(out)}
Effect(e) ==
    LET o == e.o x == pool[o.t] y == Operand(pool, o) v == Verdict(pool, o)
        now == [s \in DOMAIN pool |-> e.pool[s].x]
        others == UNION {Need(s = Target(o) \/ Same(now[s], pool[s]), "OnlyTheTargetChanges") : s \in DOMAIN pool}
    IN IF v = "open" THEN {}
       ELSE IF v = "err" THEN Need(e.r.k = "err", "MustRaise") \cup Need(\A s \in DOMAIN pool : Same(now[s], pool[s]), "FailureChangesNothing")
       ELSE IF e.r.k = "err" THEN {"Raised " \o e.r.t}
       ELSE others \cup
            (IF o.op \in Binary THEN Arith(o, x, y, now[Target(o)])
             ELSE LET want == NewValue(pool, o) IN
                  IF want.k = "iv" THEN Need(e.r.k = "iv" /\ SameIv(e.r.v, want.v), "Element") \cup Need(\A s \in DOMAIN pool : Same(now[s], pool[s]), "OnlyTheTargetChanges")
                  ELSE Need(Same(now[Target(o)], want), "NewValue"))
Clauses(e) ==
    LET c == UNION {Coherent(e.pool[s]) : s \in DOMAIN e.pool}
    IN IF c # {} \/ pool = <<>> THEN c ELSE Effect(e)
Step == /\ More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
        /\ pool' = [s \in DOMAIN Ev.pool |-> Ev.pool[s].x]
=============================================================================
