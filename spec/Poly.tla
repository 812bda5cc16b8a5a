--------------------------------- MODULE Poly ---------------------------------
(* Polynomials: sequences of terms [c coefficient, e exponents], and their ranges.    *)
EXTENDS Values
RECURSIVE Prod(_, _, _)
Prod(e, x, j) == IF j > Len(e) THEN "1" ELSE RMul(RPow(x[j], e[j]), Prod(e, x, j + 1))
PolyAt(p, x) == RSum([k \in DOMAIN p |-> RMul(p[k].c, Prod(p[k].e, x, 1))])
PolySize(p, x) == RSum([k \in DOMAIN p |-> RAbs(RMul(p[k].c, Prod(p[k].e, x, 1)))])
RECURSIVE ProdI(_, _, _)
ProdI(e, X, j) == IF j > Len(e) THEN Pt("1") ELSE MulI(PowI(X[j], e[j]), ProdI(e, X, j + 1))
PolyOver(p, X) == SumI([k \in DOMAIN p |-> MulI(Pt(p[k].c), ProdI(p[k].e, X, 1))], 1)
IsZero(sys, x) == \A i \in DOMAIN sys : REq(PolyAt(sys[i], x), "0")
\* boxes as sequences of intervals
PointIn(x, X) == \A j \in DOMAIN X : Member(x[j], X[j])
InsideBox(Y, X) == \A j \in DOMAIN X : Includes(X[j], Y[j])
\* an observed box: a scalar interval for one unknown, an array otherwise
BoxOf(r) == IF r.k = "iv" THEN <<r.v>> ELSE r.v
ABox(r, m) == \/ r.k = "iv" /\ m = 1
              \/ r.k = "arr" /\ r.sh = <<m>>
=============================================================================
