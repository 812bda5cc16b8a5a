------------------------------- MODULE MinTrace -------------------------------
(* Global minimization as the user's function sees it.  A run is one call.  events:   *)
(* "start" (f polynomial, X, M a point of X and v its value: the least one, by the        *)
(* certificate), "func" (argument), "stop" (res = box and value).                          *)
(* Certificate of the minimum: f - v is the sum of sq[k].c * (polynomial sq[k].p) ^ 2 *      *)
(* (polynomials of sq[k].g), with c >= 0 and the polynomials g non-negative on X.            *)
EXTENDS TraceKit, Poly
VARIABLES seen
vars == <<run, l, seen>>
Init == run \in DOMAIN Runs /\ l = 1 /\ seen = <<>>
S == Runs[run].ev[1]
\* sample points at which the identity of the certificate is checked: as many as the degree needs
Cert(e, x) == RSum([k \in DOMAIN e.sq |-> RMul(e.sq[k].c, RMul(RPow(PolyAt(e.sq[k].p, x), 2), PolyAt(e.sq[k].g, x)))])
CertOk == /\ \A k \in DOMAIN S.grid : REq(RSub(PolyAt(S.f, S.grid[k]), S.v), Cert(S, S.grid[k]))
          /\ \A k \in DOMAIN S.sq : RGe(S.sq[k].c, "0") /\ RGe(Lo(PolyOver(S.sq[k].g, S.X)), "0")
          /\ PointIn(S.M, S.X) /\ REq(PolyAt(S.f, S.M), S.v)
Start == Ev.op = "start" /\ seen' = <<>> /\ Report(Need(CertOk, "OracleMinimum"))
Function == /\ Ev.op = "func"
            /\ seen' = IF S.all /\ ABox(Ev.x, Len(S.X)) THEN Append(seen, [box |-> BoxOf(Ev.x), lo |-> Ev.lo]) ELSE seen
            /\ Report(IF ~ABox(Ev.x, Len(S.X)) THEN {"CallBackGetsABox"} ELSE Need(InsideBox(BoxOf(Ev.x), S.X), "CallsInsideTheStartBox"))
\* The calls say no more about the function than its bounds on the boxes called with: a lower bound v is
\* one for every function that answers like this only if boxes with lower ends >= v cover the start box.
\* (They do iff some box reaches on to the upper right from each corner <<h1, ..., hm>> of ends.)
Covered(good) ==
    LET Ends(j) == {Lo(S.X[j])} \cup {h \in {Hi(g.box[j]) : g \in good} : RLt(h, Hi(S.X[j]))}
        all == UNION {Ends(j) : j \in DOMAIN S.X}
        corners == {c \in [DOMAIN S.X -> all] : \A j \in DOMAIN S.X : c[j] \in Ends(j)}
    IN \A c \in corners : \E g \in good : \A j \in DOMAIN S.X : RLe(Lo(g.box[j]), c[j]) /\ RLt(c[j], Hi(g.box[j]))
Accounted(v) == Covered({seen[k] : k \in {k \in DOMAIN seen : RGe(seen[k].lo, v)}})
Eps == RMul(RAdd("1", RAdd(RAbs(S.v), PolySize(S.f, S.M))), RPow2(-40))
Stop ==
    /\ Ev.op = "stop" /\ UNCHANGED seen
    /\ Report(Need(Ev.kept[1] = Ev.kept[2], "ArgumentsUnchanged")
              \cup (IF Ev.res.k # "seq" \/ Len(Ev.res.v) # 2 THEN {"ReturnsBoxAndValue"}
                    ELSE LET Y == Ev.res.v[1]
                             val == Ev.res.v[2]
                         IN IF ~ABox(Y, Len(S.X)) \/ val.k # "iv" THEN {"ReturnsBoxAndValue"}
                            ELSE Need(InsideBox(BoxOf(Y), S.X), "InsideTheStartBox")
                                 \cup Need(RLe(Lo(val.v), RAdd(S.v, Eps)), "BoundNotAboveTheMinimum")
                                 \cup Need(~S.all \/ Accounted(Lo(val.v)), "EveryPointIsAccounted")
                                 \cup Need(RGe(Hi(val.v), RSub(S.v, Eps)), "ValueReachesTheMinimum")
                                 \cup Need(\A x \in {[j \in DOMAIN S.X |-> Lo(BoxOf(Y)[j])], [j \in DOMAIN S.X |-> Hi(BoxOf(Y)[j])]} :
                                              Member(PolyAt(S.f, x), Iv(RSub(Lo(val.v), Eps), RAdd(Hi(val.v), Eps))), "ValueOverTheBox")
                                 \cup Need(~S.full \/ RLe(RAbs(RSub(Lo(val.v), S.v)), RAdd(S.tol, Eps)), "Converges")))
Step == More /\ (Start \/ Function \/ Stop) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
