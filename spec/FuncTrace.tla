------------------------------ MODULE FuncTrace ------------------------------
(* event: f, A, b, x, w, value, cons (constituents); exact: data on which        *)
(* floating point arithmetic makes no rounding errors                            *)
EXTENDS TraceKit, LinSys
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1
Close(t, e, i, r) == IF e.exact THEN REq(t, r)
                     ELSE RLe(RAbs(RSub(t, r)), RMul(RMul(RAbs(e.w[i]), Scale(e.A, e.b, e.x, i)), RPow2(-45)))
LOCAL Greatest(S) == CHOOSE m \in S : \A y \in S : RLe(y, m)
LOCAL Least(S) == CHOOSE m \in S : \A y \in S : RLe(m, y)
Clauses(e) ==
    IF e.value.k # "num" THEN {"ValueIsANumber"}
    ELSE IF e.cons.k # "narr" \/ e.cons.sh # <<NRows(e.A)>> THEN {"OneConstituentPerEquation"}
    ELSE Need(\A i \in 1..NRows(e.A) : Close(e.cons.v[i], e, i, RMul(e.w[i], Form(e.f, e.A, e.b, e.x, i))), "Constituents")
         \cup (IF e.f = "Cheb" THEN Need(REq(e.value.v, Greatest(SeqToSet(e.cons.v))), "ValueIsTheGreatestResidual")
              ELSE Need(REq(e.value.v, Least(SeqToSet(e.cons.v))), "ValueIsTheLeastConstituent"))
         \cup (IF e.exact /\ e.f # "Cheb" /\ (\A i \in DOMAIN e.w : RLt("0", e.w[i])) THEN Need(RGe(e.value.v, "0") <=> InSet(e.f, e.A, e.b, e.x), "SignDecidesMembership") ELSE {})
         \cup Need(SameVal(e.A, e.A2) /\ SameVal(e.b, e.b2), "ArgumentsUnchanged")
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
