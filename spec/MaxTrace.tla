------------------------------ MODULE MaxTrace ------------------------------
(* event: f, A, b, w, C, lb, ub, x0 (start point, <<>> if none), maxiter, res     *)
(* (what maximize returned), P, Q (certificate, P = <<>> if none), kept           *)
(* (arguments before and after).                                                  *)
EXTENDS TraceKit, Optim
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1
LOCAL Magnitude(e, x) == LET s == {RMul(e.w[i], Scale(e.A, e.b, x, i)) : i \in 1..NRows(e.A)} \cup {"1"}
                    IN CHOOSE m \in s : \A y \in s : RLe(y, m)
Shape(r) == r.k = "seq" /\ Len(r.v) = 5 /\ r.v[1].k = "narr" /\ \A i \in 2..5 : r.v[i].k = "num"
LOCAL DualRhs(b) == [b EXCEPT !.v = [i \in DOMAIN b.v |-> <<b.v[i][2], b.v[i][1], b.v[i][3]>>]]
\* ChebNorm is minimized: -ChebNorm is Tol of the dual right-hand side
LOCAL Sgn(e, v) == IF e.f = "Cheb" THEN RNeg(v) ELSE v
LOCAL RhsOf(e) == IF e.f = "Cheb" THEN DualRhs(e.b) ELSE e.b
LOCAL FormOf(e) == IF e.f = "Cheb" THEN "Tol" ELSE e.f
Step1(e) ==
    IF ~Shape(e.res) \/ e.res.v[1].sh # <<NCols(e.A)>> THEN {"ReturnsPointValueCountsCode"}
    ELSE LET x == e.res.v[1].v
             b == RhsOf(e)
             f == FormOf(e)
             g == GradRow(f, e.A, b, e.x0, ActiveRow(f, e.A, b, e.x0, e.w))
             d == [j \in DOMAIN x |-> RSub(x[j], e.x0[j])]
             size == RMul(RSum([j \in DOMAIN d |-> RAbs(d[j])]), RSum([j \in DOMAIN g |-> RAbs(g[j])]))
         IN IF ~SmoothAround(f, e.A, b, e.x0, e.w, e.h) \/ \A j \in DOMAIN g : REq(g[j], "0") THEN {}
            ELSE Need(RGt(Functional(f, e.A, b, x, e.w), Functional(f, e.A, b, e.x0, e.w)), "AscendsFromSmoothPoint")
                 \cup Need(/\ RGt(RDot(d, g), "0")
                           /\ \A j, k \in DOMAIN d : RLe(RAbs(RSub(RMul(d[j], g[k]), RMul(d[k], g[j]))), RMul(size, RPow2(-24))), "AlongTheGradient")
Clauses0(e) ==
    IF ~Shape(e.res) THEN {"ReturnsPointValueCountsCode"}
    ELSE IF e.res.v[1].sh # <<NCols(e.A)>> \/ \E j \in DOMAIN e.res.v[1].v : ~RFin(e.res.v[1].v[j]) THEN {"PointOfTheSpace"}
    ELSE LET x == e.res.v[1].v
             val == Sgn(e, e.res.v[2].v)
             b == RhsOf(e)
             f == FormOf(e)
             nit == RToInt(e.res.v[3].v)
             ncalls == RToInt(e.res.v[4].v)
             code == RToInt(e.res.v[5].v)
             eps == RMul(Magnitude(e, x), RPow2(-40))
             loose == RMul(Magnitude(e, x), RDiv("1", "1000000"))
             fx == Functional(f, e.A, b, x, e.w)
             conQ == e.C # <<>>
         IN Need(IF conQ THEN RLe(val, RAdd(fx, eps)) /\ (e.full => RGe(val, RSub(fx, loose)))
                 ELSE RLe(RAbs(RSub(val, fx)), eps), "ValueAtThePoint")
            \cup Need(e.x0 = <<>> \/ ~REq(Excess(e.C, e.lb, e.ub, e.x0), "0") \/
                      RGe(val, RSub(Functional(f, e.A, b, e.x0, e.w), RMul(Magnitude(e, e.x0), RPow2(-40)))), "NotBelowTheStart")
            \cup Need(e.P = <<>> \/ CertOk(e.A, b, e.w, e.C, e.lb, e.ub, e.P, e.Q), "OracleCertificate")
            \cup Need(e.P = <<>> \/ RGe(val, RSub(CertBound(b, e.w, e.lb, e.ub, e.P, e.Q), loose)), "GlobalMaximum")
            \cup Need(~conQ \/ ~e.full \/ RLe(Excess(e.C, e.lb, e.ub, x), loose), "Constraint")
            \cup Need(nit >= 0 /\ nit <= e.maxiter /\ ncalls >= nit + 1 /\ code \in 1..5
                      /\ (code = 4 <=> nit = e.maxiter), "Counts")
            \cup Need(e.kept[1] = e.kept[2], "ArgumentsUnchanged")
Clauses(e) == IF e.op = "step" THEN Step1(e) ELSE Clauses0(e)
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
