------------------------------ MODULE SysTrace ------------------------------
(* What the constructors return.  events:                                       *)
(*   zeros  sh, res     full  sh, lo, hi, res     eye  n, m, j, res              *)
(*   diag   x, j, res                                                            *)
(*   neumaier n, theta, lo, hi     shary n, N, alpha, beta     toft n, r, q      *)
(* computed entries may carry one rounding of their ends                          *)
EXTENDS TraceKit, Values, Systems
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1
Close(x, e) == Within(Lo(x), Lo(e), 1) /\ Within(Hi(x), Hi(e), 1)
ClassOf(x) == x[3] = (IF RLe(Lo(x), Hi(x)) THEN "C" ELSE "K")
LOCAL Shaped(r, sh) == r.k = "arr" /\ r.sh = sh
LOCAL Every(r, n, m, E(_, _), Ok(_, _)) == \A i \in 1..n, j \in 1..m : Ok(r.v[(i - 1) * m + j], E(i, j)) /\ ClassOf(r.v[(i - 1) * m + j])
LOCAL Flatly(r, E(_), Ok(_, _)) == \A k \in DOMAIN r.v : Ok(r.v[k], E(k)) /\ ClassOf(r.v[k])
LOCAL Same(x, e) == SameIv(x, e)
ZerosCl(e) == Need(Shaped(e.res, e.sh), "Shape") \cup Need(e.res.k # "arr" \/ Flatly(e.res, LAMBDA k : Pt("0"), Same), "Entries")
FullCl(e) == Need(Shaped(e.res, e.sh), "Shape")
             \cup Need(~Shaped(e.res, e.sh) \/ Flatly(e.res, LAMBDA k : Iv(Lo(BAt(e.lo, k, e.sh)), Lo(BAt(e.hi, k, e.sh))), Same), "Entries")
EyeCl(e) == Need(Shaped(e.res, <<e.n, e.m>>), "Shape")
            \cup Need(~Shaped(e.res, <<e.n, e.m>>) \/ Every(e.res, e.n, e.m, LAMBDA i, j : EyeEntry(e.j, i, j), Same), "Entries")
DiagCl(e) ==
    IF Len(e.x.sh) = 1
    THEN LET s == DiagSize(e.x.sh[1], e.j) IN
         Need(Shaped(e.res, <<s, s>>), "Shape")
         \cup Need(~Shaped(e.res, <<s, s>>) \/ Every(e.res, s, s, LAMBDA i, j : DiagEntry(e.x.v, e.j, i, j), Same), "Entries")
    ELSE IF Len(e.x.sh) = 2
    THEN LET s == DiagLen(e.x.sh[1], e.x.sh[2], e.j) IN
         Need(Shaped(e.res, <<s>>), "Shape")
         \cup Need(~Shaped(e.res, <<s>>) \/ \A p \in 1..s : SameIv(e.res.v[p], e.x.v[(DiagPlace(e.j, p)[1] - 1) * e.x.sh[2] + DiagPlace(e.j, p)[2]]), "Entries")
    ELSE Need(e.res.k = "err", "MustRaise")
SystemCl(e, n, E(_, _), rhs) ==
    IF ~(e.res.k = "seq" /\ Len(e.res.v) = 2) THEN {"MatrixAndRightHandSide"}
    ELSE LET A == e.res.v[1] b == e.res.v[2] IN
         Need(Shaped(A, <<n, n>>) /\ Shaped(b, <<n>>), "Shape")
         \cup (IF ~(Shaped(A, <<n, n>>) /\ Shaped(b, <<n>>)) THEN {}
               ELSE Need(Every(A, n, n, E, Close), "MatrixEntries") \cup Need(Flatly(b, LAMBDA k : rhs, Close), "RightHandSide"))
Clauses(e) ==
    CASE e.op = "zeros" -> ZerosCl(e)
      [] e.op = "full" -> FullCl(e)
      [] e.op = "eye" -> EyeCl(e)
      [] e.op = "diag" -> DiagCl(e)
      [] e.op = "neumaier" -> SystemCl(e, e.n, LAMBDA i, j : NeumaierEntry(e.theta, i, j), NeumaierRhs(e.lo, e.hi))
      [] e.op = "shary" -> IF SharyAllowed(e.n, e.N, e.alpha, e.beta)
                           THEN SystemCl(e, e.n, LAMBDA i, j : SharyEntry(e.n, e.N, e.alpha, e.beta, i, j), SharyRhs(e.n))
                           ELSE Need(e.res.k = "err", "MustRaise")
      [] e.op = "toft" -> IF ToftAllowed(e.r, e.q) THEN SystemCl(e, e.n, LAMBDA i, j : ToftEntry(e.n, e.r, i, j), ToftRhs(e.q))
                          ELSE Need(e.res.k = "err", "MustRaise")
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
