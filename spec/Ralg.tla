--------------------------------- MODULE Ralg ---------------------------------
(* The protocol of the sub-gradient optimizer: a record of the best point seen,   *)
(* iterations that consist of a line search (at most MaxCal calls), counters and  *)
(* the stopping rules.  A position is where the execution stands after a call:     *)
(*   nit   finished iterations            cal   calls in the current line search   *)
(*   last  "end" when the line search is over, "on" otherwise                      *)
(*   s     the point at which the line search started                              *)
(*   hist  record values at the beginning of the last iterations, latest first     *)
(* The objective decides whether the line search goes on.                          *)
EXTENDS Integers, Sequences, Rat

First(x) == [nit |-> -1, cal |-> 0, last |-> "end", s |-> x, hist |-> <<>>]
LOCAL Trim(q, n) == IF Len(q) > n THEN SubSeq(q, 1, n) ELSE q
\* the position after a call at which the search goes on / is over; x, rec: point and
\* record before the call
Enter(p, x, rec, nsims) ==
    IF p.last = "end" THEN [nit |-> p.nit + 1, cal |-> 0, last |-> "on", s |-> x, hist |-> Trim(<<rec>> \o p.hist, nsims)] ELSE p
Called(p, end) == [p EXCEPT !.cal = @ + 1, !.last = IF end THEN "end" ELSE "on"]

\* decrease of the record in the last nsims iterations, relative when |rec| > 1; defined
\* when so many iterations have been made
HasWindow(p, nsims) == Len(p.hist) >= nsims
Progress(p, rec, nsims) == LET d == RSub(p.hist[nsims], rec) IN IF RLt("1", RAbs(rec)) THEN RDiv(d, RAbs(rec)) ELSE d
Sq(v) == RDot(v, v)
Diff(x, y) == [j \in DOMAIN x |-> RSub(x[j], y[j])]
\* The length travelled in a line search is the distance between its ends, up to eps.
Near(p, x, tolx, eps) == RLe(Sq(Diff(x, p.s)), RMul(RAdd(tolx, eps), RAdd(tolx, eps)))
Within(p, x, tolx, eps) == RLt(eps, tolx) /\ RLt(Sq(Diff(x, p.s)), RMul(RSub(tolx, eps), RSub(tolx, eps)))

\* May the method stop at p with this code and iteration count?
Allowed(p, code, nit, x, g, rec, o, slack, eps) ==
    CASE code = 2 -> nit = (IF p.nit < 0 THEN 0 ELSE p.nit) /\ RLe(Sq(g), RMul(RMul(o.tolg, o.tolg), RAdd("1", slack)))
      [] code = 5 -> p.cal > o.maxcal /\ nit = p.nit
      \* after many dilations the space may have lost all its extent along the sub-gradient
      [] code = 3 -> p.nit >= 0 /\ p.last = "end" /\ ((nit = p.nit /\ Near(p, x, o.tolx, eps)) \/ (nit = p.nit + 1 /\ p.nit >= 20))
      [] code = 1 -> /\ p.nit >= 0 /\ p.last = "end" /\ nit = p.nit /\ HasWindow(p, o.nsims)
                     /\ RLe(Progress(p, rec, o.nsims), RAdd(RMul(o.tolf, RAdd("1", slack)), RMul(RPow2(-45), RMax("1", RAbs(rec)))))
      [] code = 4 -> p.last = "end" /\ nit = p.nit + 1 /\ nit = o.maxiter
      [] OTHER -> FALSE
\* Must it have stopped at p?
Due(p, x, g, rec, o, slack, eps) ==
    \/ RLt(RMul(Sq(g), RAdd("1", slack)), RMul(o.tolg, o.tolg))
    \/ p.cal > o.maxcal
    \/ p.last = "end" /\ p.nit >= 0 /\ Within(p, x, o.tolx, eps)
    \/ p.last = "end" /\ p.nit >= 0 /\ HasWindow(p, o.nsims)
       /\ RLt(RAdd(RMul(Progress(p, rec, o.nsims), RAdd("1", slack)), RMul(RPow2(-45), RMax("1", RAbs(rec)))), o.tolf)
    \/ p.last = "end" /\ p.nit + 1 >= o.maxiter
=============================================================================
