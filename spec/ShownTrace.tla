------------------------------ MODULE ShownTrace ------------------------------
(* What leaves the library as text or as Python and NumPy objects.                 *)
(*   show    x, sh (shape of the text), t (numbers read from it), ex (exponents),   *)
(*           err (the text could not be read)                                         *)
(*   export  how, x, res, x2 (x after the export was overwritten)                      *)
(*   ranges  x, res                                                                     *)
EXTENDS TraceKit, Values, Shown
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1
Kept(e) == Need(e.x = e.x2, "ValueUnchanged")
ShowCl(e) ==
    IF e.err # "" THEN {"Readable"}
    ELSE IF e.sh # ShapeOf(e.x) \/ Len(e.t) # Size(e.sh) THEN {"ShapeOfTheText"}
    ELSE Need(\A k \in DOMAIN e.t : Exponent(Lo(At(e.x, k)), e.ex[k][1]) /\ Exponent(Hi(At(e.x, k)), e.ex[k][2]), "OracleExponent")
         \cup Need(\A k \in DOMAIN e.t : ShownAs(e.t[k][1], Lo(At(e.x, k)), e.ex[k][1], Digits), "LeftEnd")
         \cup Need(\A k \in DOMAIN e.t : ShownAs(e.t[k][2], Hi(At(e.x, k)), e.ex[k][2], Digits), "RightEnd")
ExportCl(e) ==
    IF e.res.k # "arr" /\ e.res.k # "iv" THEN {"Intervals"}
    ELSE Need(ShapeOf(e.res) = ShapeOf(e.x), "Shape")
         \cup Need(ShapeOf(e.res) # ShapeOf(e.x) \/ \A k \in 1..Size(ShapeOf(e.x)) : At(e.res, k) = At(e.x, k), "SameIntervals")
RangesCl(e) == Need(e.res.k = "seq" /\ Len(e.res.v) = Len(e.x.sh)
                    /\ \A k \in DOMAIN e.x.sh : e.res.v[k] = [k |-> "seq", v |-> [i \in 1..e.x.sh[k] |-> [k |-> "num", v |-> RInt(i - 1)]]], "IndexRanges")
Clauses(e) == Kept(e) \cup CASE e.op = "show" -> ShowCl(e) [] e.op = "export" -> ExportCl(e) [] e.op = "ranges" -> RangesCl(e)
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
