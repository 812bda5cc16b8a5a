------------------------------ MODULE ElemTrace ------------------------------
(* Elementary functions of intervals, judged by module Elem.                   *)
(*   event: op (function), a (seq of argument intervals), p (exponent), r (seq  *)
(*   of results), ash, rsh (shapes), after (the arguments re-read after the     *)
(*   call), err (the call raised)                                               *)
EXTENDS TraceKit, Elem
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1

Tiny == RPow2(-1000)
Big == "100000"
Clip(x) == Iv(RMax(Lo(x), "0"), Hi(x))                    \* the part of x in [0, oo)

\* ranges of the function over the proper interval x, as enclosures of both ends
Range(op, x, p) ==
    CASE op = "exp" -> ExpRange(x) [] op = "log" -> LogRange(Clip(x)) [] op = "sin" -> SinRange(x)
      [] op = "cos" -> CosRange(x) [] op = "rpow" -> PowRange(x, p)
      [] OTHER -> <<Pt("nan"), Pt("nan")>>
InDomain(op, x, p) == CASE op \in {"log", "sqrt"} -> RLe("0", Hi(x)) [] op = "rpow" -> RLe("0", Lo(x)) [] OTHER -> TRUE

\* how far beyond the true end each function may reach
Tol(op, v) ==
    LET rel(k) == RMul(RAbs(v), RDiv(RInt(k), RPow2(53))) IN
    CASE op \in {"exp", "log"} -> RAdd(rel(8), Tiny) [] op \in {"sin", "cos"} -> RAdd(rel(8), RPow2(-51))
      [] OTHER -> RAdd(RMul(RAbs(v), RPow2(-38)), Tiny)

\* sqrt is decided by squares
SqrtCl(x, r) ==
    LET c == Clip(x) t == RAdd("1", RPow2(-38))
        lo == Lo(r) hi == Hi(r) IN
    Need(RLe(lo, "0") \/ RLe(RMul(lo, lo), Lo(c)), "LowerEndEncloses")
    \cup Need(RLe("0", hi) /\ RLe(Hi(c), RMul(hi, hi)), "UpperEndEncloses")
    \cup Need(IF REq(Lo(c), "0") THEN RLe(RNeg(Tiny), lo) ELSE RLt("0", lo) /\ RLe(Lo(c), RMul(RMul(lo, lo), t)), "LowerEndIsTight")
    \cup Need(RLe(RMul(hi, hi), RAdd(RMul(Hi(c), t), Tiny)), "UpperEndIsTight")

\* r is a pair of ends that must lie outside the enclosures m (of the minimum), M (of the maximum)
FiniteEnd(v) == RFin(v[1]) /\ RFin(v[2]) /\ RLe(RAbs(v[1]), RPow2(1020)) /\ RLe(RAbs(v[2]), RPow2(1020))
Judge(op, x, p, r) ==
    LET g == Range(op, x, p)
        m == g[1] mx == g[2]
        wide == op \in {"sin", "cos"} /\ ~(RLe(RAbs(Lo(x)), Big) /\ RLe(RAbs(Hi(x)), Big))
    IN  Need(RLe(Lo(r), m[2]), "LowerEndEncloses")
        \cup Need(RLe(mx[1], Hi(r)), "UpperEndEncloses")
        \cup (IF wide THEN {} ELSE
              Need(~FiniteEnd(m) \/ RLe(RSub(m[1], Tol(op, m[1])), Lo(r)), "LowerEndIsTight")
              \cup Need(~FiniteEnd(mx) \/ RLe(Hi(r), RAdd(mx[2], Tol(op, mx[2]))), "UpperEndIsTight"))
\* improper argument: the dual of the range, to rounding, which is outwards (in Kaucher's order)
Near(op, v, t) == ~FiniteEnd(v) \/ (RLe(RSub(v[1], Tol(op, v[1])), t) /\ RLe(t, RAdd(v[2], Tol(op, v[2]))))
JudgeDual(op, x, p, r) ==
    LET g == Range(op, x, p) IN
    IF op \in {"sin", "cos"} /\ ~(RLe(RAbs(Lo(x)), Big) /\ RLe(RAbs(Hi(x)), Big)) THEN {}
    ELSE Need(Near(op, g[2], Lo(r)), "LowerEndOfDual") \cup Need(Near(op, g[1], Hi(r)), "UpperEndOfDual")
         \cup (IF op = "rpow" THEN {} ELSE
               Need(RLe(Lo(r), g[2][2]), "LowerEndOfDualEncloses") \cup Need(RLe(g[1][1], Hi(r)), "UpperEndOfDualEncloses"))

SignI(x) == Iv(RInt(RSgn(Lo(x))), RInt(RSgn(Hi(x))))
One(op, x, p, r) ==
    IF op = "sign" THEN Need(SameIv(r, SignI(x)), "Sign")
    ELSE IF ~InDomain(op, Pro(x), p) THEN Need(NanIv(r), "NotANumberOutsideTheDomain")
    ELSE IF NanIv(r) THEN {"ResultIsANumber"}
    ELSE IF op = "sqrt" /\ Proper(x) THEN SqrtCl(x, r)
    ELSE IF op = "sqrt" THEN SqrtCl(Pro(x), Iv(RMul(Hi(r), RSub("1", RPow2(-42))), RMul(Lo(r), RAdd("1", RPow2(-42)))))
    ELSE IF Proper(x) THEN Judge(op, x, p, r)
    ELSE JudgeDual(op, Pro(x), p, r)

Clauses(e) ==
    IF e.err # "" THEN {"Raised " \o e.err}
    ELSE IF Len(e.r) # Len(e.a) THEN {"OneResultPerElement"}
    ELSE UNION {One(e.op, e.a[i], e.p, e.r[i]) : i \in DOMAIN e.a}
         \cup Need(e.ash = e.rsh, "SameShape")
         \cup Need(Len(e.after) = Len(e.a) /\ \A i \in DOMAIN e.a : SameIv(e.a[i], e.after[i]), "ArgumentUnchanged")

Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
