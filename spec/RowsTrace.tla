------------------------------ MODULE RowsTrace ------------------------------
(* Row preparation and linear constraints of the real library.  Events:               *)
(*   unique   x (rows), dec, r          pairs   x, y (limits), r       clear  x, y, r      *)
(*   shape    t (nested sequence), r                                                       *)
(*   new      C, lb, ub, mu (or "none"), ok (arguments are consistent), r (rows, limits,   *)
(*            weight of the object, or the error)                                           *)
(*   at       N, d, mu (of the object), C, lb, ub (its arguments), x, large (per row: value *)
(*            and verdict), r (penalty and its gradient)                                     *)
(*   weight   N, num, r                                                                      *)
EXTENDS TraceKit, Rows
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1
Close(a, b) == RLe(RAbs(RSub(a, b)), RMul(RPow2(-48), RAdd("1", RMax(RAbs(a), RAbs(b)))))
RowsOf(v) == IF v.k # "narr" \/ Len(v.sh) # 2 THEN <<>> ELSE [i \in 1..v.sh[1] |-> [j \in 1..v.sh[2] |-> v.v[(i - 1) * v.sh[2] + j]]]
NumsOf(v) == IF v.k # "narr" THEN <<>> ELSE v.v
\* the library may return rounded rows
Rounded(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : RLe(RAbs(RSub(p[i], q[i])), RDiv("1", Ten(12)))
SameRows(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Rounded(p[i], q[i])
SameNums(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Close(p[i], q[i])
Failed(r) == r.k = "err"
UniqueCl(e) ==
    IF e.r.k # "narr" THEN {"ReturnsRows"}
    ELSE LET c == TLCEval([i \in DOMAIN e.x |-> Cells(e.x[i], e.dec)]) at == Firsts(c) IN
         Need(SameRows(RowsOf(e.r), [k \in DOMAIN at |-> Back(c[at[k]], e.dec)]), "FirstsInOrder")
PairsCl(e) ==
    IF e.r.k # "seq" \/ Len(e.r.v) # 2 THEN {"ReturnsRowsAndLimits"}
    ELSE LET c == TLCEval([i \in DOMAIN e.x |-> Cells(e.x[i] \o <<e.y[i]>>, 12)]) at == Firsts(c) IN
         Need(SameRows(RowsOf(e.r.v[1]), Pick(e.x, at)) /\ Rounded(NumsOf(e.r.v[2]), Pick(e.y, at)), "FirstsInOrder")
ClearCl(e) ==
    IF e.r.k # "seq" \/ Len(e.r.v) # 3 THEN {"ReturnsRowsLimitsVerdict"}
    ELSE LET c == TLCEval([i \in DOMAIN e.x |-> Back(Cells(e.x[i], 12), 12)]) d == [i \in DOMAIN e.y |-> RDiv(Cell(e.y[i], 12), Ten(12))] at == NonZero(c) IN
         Need(SameRows(RowsOf(e.r.v[1]), Pick(e.x, at)) /\ Rounded(NumsOf(e.r.v[2]), Pick(e.y, at)), "RowsWithUnknownsInOrder")
         \cup Need(e.r.v[3].k = "bool" /\ e.r.v[3].v = Possible(c, d), "Verdict")
ShapeCl(e) == Need(e.r.k = "seq" /\ LET s == NestShape(e.t) IN Len(e.r.v) = Len(s) /\ \A i \in DOMAIN s : e.r.v[i].k = "num" /\ e.r.v[i].v = ToString(s[i]), "Shape")
NewCl(e) ==
    IF ~e.ok THEN Need(Failed(e.r), "InconsistentArgumentsMustRaise")
    ELSE IF Failed(e.r) THEN {"DoesNotFail"}
    ELSE Need(e.r.mu = e.mu, "Weight")
AtCl(e) ==
    LET keeps == Keeps(e.C, e.lb, e.ub, e.x) IN
    Need(AllLe(e.N, e.d, e.x) = keeps, "NormalForm")
    \cup Need(\A i \in DOMAIN e.large : Close(e.large[i][1], RDot(e.N[i], e.x)), "RowValue")
    \cup Need(\A i \in DOMAIN e.large : e.large[i][2] = RGt(RDot(e.N[i], e.x), e.d[i]), "Beyond")
    \cup IF Failed(e.r) THEN {"PenaltyDoesNotFail"}
         ELSE Need(Close(e.r.p, Penalty(e.N, e.d, e.mu, e.x)), "Penalty")
              \cup Need(SameNums(e.r.g, Slope(e.N, e.d, e.mu, e.x)), "Gradient")
              \cup Need(REq(e.r.p, "0") = keeps, "PenaltyZeroExactlyInside")
WeightCl(e) ==
    IF Failed(e.r) THEN {"DoesNotFail"}
    ELSE Need(e.r.v = e.r.mu, "WeightIsStored")
         \cup Need(RFin(e.r.v) /\ RGt(e.r.v, "0"), "Positive")
         \cup Need(\A m \in Multipliers(e.N) : RGe(RMul(RMul(e.r.v, e.r.v), RAdd("1", RPow2(-30))), RMul(m, RMul(e.num, e.num))), "AboveTheMultipliers")
Clauses(e) ==
    CASE e.op = "unique" -> UniqueCl(e) [] e.op = "pairs" -> PairsCl(e) [] e.op = "clear" -> ClearCl(e) [] e.op = "shape" -> ShapeCl(e)
      [] e.op = "new" -> NewCl(e) [] e.op = "at" -> AtCl(e) [] e.op = "weight" -> WeightCl(e)
Step == More /\ Report(Clauses(Ev) \cup Need(Ev.same, "ArgumentsUnchanged")) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
