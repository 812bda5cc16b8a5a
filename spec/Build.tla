-------------------------------- MODULE Build --------------------------------
(* Construction and conversion of intervals.                                   *)
(* events:                                                                     *)
(*   make   l, r (numbers or arrays of numbers), sort, midrad, res, l2, r2      *)
(*   keep   x (an interval or array), res         Interval(x), asinterval(x)    *)
(*   conv   x (numbers), res                      asinterval                    *)
(*   mixed  xs (sequence of intervals and numbers), res      asinterval(list)   *)
(*   refuse what, res                             bad arguments                 *)
EXTENDS TraceKit, Values
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1

Double(v) == REq(F64Nr(v), v)
\* an end is taken over exactly, or, when no double equals it, rounded outward to the next one
EndDn(t, v) == IF Double(v) THEN REq(t, v) ELSE REq(t, F64Dn(v))
EndUp(t, v) == IF Double(v) THEN REq(t, v) ELSE REq(t, F64Up(v))
MakeOne(a, b, sort, midrad, x) ==
    IF midrad
    THEN LET e == <<RSub(a, b), RAdd(a, b)>> IN
         Need(Includes(x, e), "EnclosesMidRad") \cup Need((Double(a) /\ Double(b)) => (Within(Lo(x), Lo(e), 1) /\ Within(Hi(x), Hi(e), 1)), "TightMidRad")
         \cup Need(x[3] = "C", "ClassicalWhenProper")
    ELSE LET lo == IF sort THEN RMin(a, b) ELSE a
             hi == IF sort THEN RMax(a, b) ELSE b IN
         Need(EndDn(Lo(x), lo), "LeftEnd") \cup Need(EndUp(Hi(x), hi), "RightEnd")
         \cup Need(x[3] = (IF RLe(lo, hi) THEN "C" ELSE "K"), "ClassByDirection")
MakeCl(e) ==
    LET sh == ShapeOf(e.l)
        n == Size(sh)
        neg == e.midrad /\ \E k \in 1..n : RLt(Lo(At(e.r, k)), "0")
    IN IF neg THEN Need(e.res.k = "err", "NegativeRadiusMustRaise")
       ELSE IF e.res.k = "err" THEN {"Raised " \o e.res.t}
       ELSE IF e.res.k # (IF sh = <<>> THEN "iv" ELSE "arr") THEN {"ResultKind"}
       ELSE IF ShapeOf(e.res) # sh THEN {"SameShape"}
       ELSE UNION {MakeOne(Lo(At(e.l, k)), Lo(At(e.r, k)), e.sort, e.midrad, At(e.res, k)) : k \in 1..n}
            \cup Need(SameVal(e.l, e.l2) /\ SameVal(e.r, e.r2), "ArgumentsUnchanged")
ConvCl(e) ==
    LET sh == ShapeOf(e.x) IN
    IF e.res.k = "err" THEN {"Raised " \o e.res.t}
    ELSE IF e.res.k # (IF sh = <<>> THEN "iv" ELSE "arr") THEN {"ResultKind"}
    ELSE IF ShapeOf(e.res) # sh THEN {"SameShape"}
    ELSE Need(\A k \in 1..Size(sh) : EndDn(Lo(At(e.res, k)), Lo(At(e.x, k))) /\ EndUp(Hi(At(e.res, k)), Lo(At(e.x, k))), "PointIntervals")
MixedCl(e) ==
    IF e.res.k # "arr" THEN {"ResultKind"}
    ELSE IF e.res.sh # <<Len(e.xs)>> THEN {"SameShape"}
    ELSE Need(\A k \in DOMAIN e.xs : SameIv(At(e.xs[k], 1), e.res.v[k]), "EveryElementConverted")
Clauses(e) ==
    CASE e.op = "make" -> MakeCl(e)
      [] e.op = "keep" -> Need(SameVal(e.x, e.res), "IntervalsAreKept")
      [] e.op = "conv" -> ConvCl(e)
      [] e.op = "mixed" -> MixedCl(e)
      [] e.op = "refuse" -> Need(e.res.k = "err", "MustRaise")
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
