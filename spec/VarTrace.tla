------------------------------ MODULE VarTrace ------------------------------
(* The variability measure.  One event per call:                                  *)
(*   ive  A (rows of intervals), mag (magnitudes of b), N, sure, x, f (where and what   *)
(*        the maximum of Tol is), res.  sure: N leaves no corner matrix out (but with a  *)
(*        chance below 1e-9)                                                              *)
(*   stream  A, vals, after: for twenty different states of the process's generator what  *)
(*        a call with one draw returned, and what the generator gave after the call        *)
EXTENDS TraceKit, Variability
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1
Tol == RPow2(-26)
Near(a, b) == IF a = "inf" \/ b = "inf" THEN a = b ELSE RLe(RAbs(RSub(a, b)), RMul(Tol, RAbs(b)))
\* nearly singular matrices are singular in floating point
Far == RPow2(80)
\* the visited corner is a matter of chance, and the call does not reset the generator
StreamCl(e) ==
    Need(\A i, j \in DOMAIN e.after : i # j => e.after[i] # e.after[j], "GeneratorNotReset")
    \cup (IF \E i \in DOMAIN e.vals : e.vals[i].k # "num" THEN {"ReturnsNumber"}
          ELSE Need(Cardinality({Signature(B) : B \in Corners(e.A)}) < 4 \/ (\E i, j \in DOMAIN e.vals : e.vals[i].v # e.vals[j].v), "CornersAreDrawn"))
Clauses(e) ==
    IF e.op = "stream" THEN StreamCl(e)
    ELSE IF e.res.k = "err" THEN {"DoesNotFail"}
    ELSE IF e.res.k # "num" THEN {"ReturnsNumber"}
    ELSE LET v == e.res.v
             S == {Signature(B) : B \in Corners(e.A)}
         IN IF REq(e.f, "0") \/ REq(Norm2(e.x), "0") THEN {}
            ELSE IF \A s \in S : s = "inf" \/ RGt(s, Far) THEN Need(~RFin(v) \/ RGt(SignatureOf(CondOf(v, Len(e.A[1]), e.f, e.x, e.mag)), RPow2(64)), "SingularCorners")
            ELSE Need(RSgn(v) = RSgn(e.f), "Sign")
                 \cup IF ~RFin(v) THEN (IF ~e.sure /\ "inf" \in S THEN {} ELSE {"Finite"})
                      ELSE LET k == CondOf(v, Len(e.A[1]), e.f, e.x, e.mag) IN
                           IF RLt(k, RSub("1", RPow2(-26))) THEN {"AtLeastOne"}
                           ELSE LET s == SignatureOf(k) IN
                                Need(IF e.sure THEN Near(s, LeastSignature(S)) ELSE \E t \in S : Near(s, t) \/ (RGt(t, RPow2(64)) /\ RGt(s, RPow2(60))), IF e.sure THEN "LeastCondition" ELSE "ConditionOfACorner")
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
