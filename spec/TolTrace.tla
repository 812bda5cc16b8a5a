------------------------------- MODULE TolTrace -------------------------------
(* Estimates of the tolerable solution set {x : A x in b}.                          *)
(* "inner": Neumaier(A, b, y, w).  "hull": Rohn(A, b, consistency='tol') with W        *)
(* (points), bounded (every face of the hull is reached by W), P (certificate that       *)
(* the set is empty, <<>> if none).                                                       *)
EXTENDS TraceKit, SolSet, Optim
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1
LOCAL LeastOf(S) == CHOOSE m \in S : \A y \in S : RLe(m, y)
LOCAL MostOf(S) == CHOOSE m \in S : \A y \in S : RLe(y, m)
Ones(A) == [i \in 1..NRows(A) |-> "1"]
TolAt(A, b, x) == Functional("Tol", A, b, x, Ones(A))
SizeAt(A, b, x) == MostOf({Scale(A, b, x, i) : i \in 1..NRows(A)} \cup {"1"})
Corners(res, m) == LET c == [1..m -> {1, 2}] IN {[j \in 1..m |-> res.v[j][d[j]]] : d \in c}
Weight(e, j) == IF e.w = <<>> THEN "1" ELSE e.w[j]
\* the radius of Neumaier's box in units of the weights
Neumaier(e) == LeastOf({RDiv(TolRow(e.A, e.b, e.y, i), RSum([j \in 1..NCols(e.A) |-> RMul(MagI(El(e.A, i, j)), Weight(e, j))])) :
                        i \in {i \in 1..NRows(e.A) : \E j \in 1..NCols(e.A) : ~REq(RMul(MagI(El(e.A, i, j)), Weight(e, j)), "0")}})
Inner(e) ==
    LET m == NCols(e.A)
        t == TolAt(e.A, e.b, e.y)
    IN IF e.res.k = "err" THEN Need(RLe(t, RMul(SizeAt(e.A, e.b, e.y), RPow2(-40))), "AnswersForTolerableCentres")
       ELSE IF ~IsBox(e.res, m) THEN {"ReturnsABox"}
       ELSE LET r == Neumaier(e)
                eps == RMul(RAdd("1", MostOf({RAbs(e.y[j]) : j \in 1..m} \cup {RMul(RAbs(r), Weight(e, j)) : j \in 1..m})), RPow2(-40))
            IN Need(\A x \in Corners(e.res, m) : RGe(TolAt(e.A, e.b, x), RNeg(RMul(SizeAt(e.A, e.b, x), RPow2(-36)))), "BoxOfTolerableSolutions")
               \cup Need(InBox(e.y, e.res, eps), "ContainsTheCentre")
               \cup Need(\A j \in 1..m : RLe(RAbs(RSub(RSub(Hi(e.res.v[j]), e.y[j]), RMul(r, Weight(e, j)))), eps)
                                         /\ RLe(RAbs(RSub(RSub(e.y[j], Lo(e.res.v[j])), RMul(r, Weight(e, j)))), eps), "ProportionalAndOfFullSize")
Hull(e) ==
    LET m == NCols(e.A)
        thick == \E k \in DOMAIN e.W : RGt(TolAt(e.A, e.b, e.W[k]), RMul(SizeAt(e.A, e.b, e.W[k]), RDiv("1", "10000")))
        big == MostOf({RAbs(e.W[k][j]) : <<k, j>> \in {<<p, q>> \in (DOMAIN e.W) \X (1..m) : TRUE}} \cup {"1"})
    IN Need(\A k \in DOMAIN e.W : InTolerable(e.A, e.b, e.W[k]), "OracleWitness")
       \cup Need(e.P = <<>> \/ CertOk(e.A, e.b, Ones(e.A), <<>>, <<>>, <<>>, e.P, <<>>), "OracleCertificate")
       \cup (IF e.res.k = "err" THEN Need(~(thick /\ e.bounded), "AnswersForThickSets")
             ELSE IF ~IsBox(e.res, m) THEN {"ReturnsABox"}
             ELSE Need(e.P = <<>> \/ RGe(CertBound(e.b, Ones(e.A), <<>>, <<>>, e.P, <<>>), RNeg(RMul(SizeAt(e.A, e.b, [j \in 1..m |-> "0"]), RDiv("1", "100000")))), "EmptySetIsReported")
                  \cup Need(Encloses(e.res, e.W, <<>>, RMul(big, RPow2(-22))), "NoSolutionLost")
                  \cup Need(~e.bounded \/ ~thick \/ Near(e.res, e.W, RMul(big, RPow2(-20)), 1..m), "Optimal"))
Clauses(e) == Need(e.kept[1] = e.kept[2], "ArgumentsUnchanged") \cup (IF e.op = "inner" THEN Inner(e) ELSE Hull(e))
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
