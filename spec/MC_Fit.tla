-------------------------------- MODULE MC_Fit --------------------------------
(* The regression models on small data: ranges of polynomials contain their values   *)
(* at every point of a grid, ranges term by term contain them, the smoothing is      *)
(* linear and keeps constants, and no coefficients beat a legal certificate.          *)
EXTENDS Fit
CONSTANTS G, D
VARIABLES basis, order, X, x, cert, norm
vars == <<basis, order, X, x, cert, norm>>
Ivs == {Iv(RDiv(RInt(p), "2"), RDiv(RInt(q), "2")) : <<p, q>> \in {<<p, q>> \in (-G..G) \X (-G..G) : p <= q}}
Cs == {"-1", "0", "3/2"}
Init == basis \in Bases /\ order \in 1..D /\ X = <<>> /\ x = <<>> /\ cert = <<>> /\ norm \in {"inf", "l1"}
Next == \/ X = <<>> /\ X' \in Ivs \X {Iv("-1/2", "1"), Iv("1", "1")} /\ UNCHANGED <<basis, order, x, cert, norm>>
        \/ /\ X # <<>> /\ x = <<>> /\ cert = <<>> /\ (norm = "inf" \/ order = 1) /\ x' \in [1..(order + 1) -> Cs] /\ UNCHANGED <<basis, order, X, cert, norm>>
        \/ /\ X # <<>> /\ cert = <<>> /\ x = <<>> /\ order = 1
           /\ \E l \in {"0", "1/3", "1/2", "1"}, s \in {1, -1}, e \in {1, 2} :
                 cert' = <<[i |-> 1, s |-> 1, z |-> <<X[1][e]>>, lam |-> l], [i |-> 1, s |-> -1, z |-> <<X[1][3 - e]>>, lam |-> IF norm = "l1" THEN RSub("1", l) ELSE "0"],
                           [i |-> 2, s |-> s, z |-> <<X[2][e]>>, lam |-> IF norm = "l1" THEN "1/2" ELSE RSub("1", l)], [i |-> 2, s |-> -s, z |-> <<X[2][3 - e]>>, lam |-> IF norm = "l1" THEN "1/2" ELSE "0"]>>
           /\ UNCHANGED <<basis, order, X, x, norm>>
Mo == [cls |-> "ISPAE", basis |-> basis, order |-> <<order>>, bias |-> TRUE]
A == [k |-> "arr", sh |-> <<2, 1>>, v |-> X]
Grid(V) == {RAdd(Lo(V), RMul(Wid(V), t)) : t \in {"0", "1/4", "1/3", "1/2", "2/3", "7/8", "1"}}
Hair == RPow2(-60)
Wider(V) == Iv(RSub(Lo(V), Hair), RAdd(Hi(V), Hair))
PolyIdentities ==
    \A k \in 1..6 : LET p == BasisTable[basis][k] IN
        /\ Len(p) = k + 1 /\ ~REq(p[k + 1], "0")
        /\ basis = "monom" => UAt(p, "2") = RPow("2", k)
        /\ basis = "chebyshev" => REq(UAt(p, "1"), "1") /\ REq(UAt(p, "0"), IF k % 2 = 1 THEN "0" ELSE IF k % 4 = 0 THEN "1" ELSE "-1")
        /\ basis = "legendre" => REq(UAt(p, "1"), "1") /\ REq(UAt(p, "-1"), IF k % 2 = 1 THEN "-1" ELSE "1")
        /\ basis = "laguerre" => REq(UAt(p, "0"), "1") /\ REq(UAt(UDer(p), "0"), RInt(-k))
        /\ basis = "hermite" => \A t \in {"0", "1", "-1/2"} : REq(UAt(UDer(p), t), RMul(RInt(2 * k), UAt(BasisPoly(basis, k - 1), t)))
RangesContain ==
    x # <<>> => \A i \in 1..2 :
        LET polys == ModelPolys(Mo, A, x)
            V == ModelRow(Mo, A, x, polys, i)
            W == TermsRow(Mo, A, x, i)
        IN /\ \A t \in Grid(X[i]) : Member(RDot(x, FeatureAt(Mo, <<t>>)), Wider(V))
           /\ Includes(Wider(W), V)
           /\ order = 1 => REq(Lo(V), Lo(W)) /\ REq(Hi(V), Hi(W))
           /\ RLe(MagI(V), RowScale(Mo, A, x, i))
Smoothing ==
    x # <<>> => LET w == [k \in DOMAIN x |-> RAbs(x[k])] IN
        \A al \in {"0", "1/2", "1"}, be \in {"1", "3"} :
            LET s == Smoothed(al, be, w) d == Smoothed(al, be, [k \in DOMAIN w |-> RMul("2", w[k])])
            IN /\ \A k \in DOMAIN w : RGe(s[k], "0") /\ REq(d[k], RMul("2", s[k]))
               /\ al = "0" => \A k \in DOMAIN w : REq(s[k], RMul(be, w[k]))
               /\ al = "1" => \A k \in DOMAIN w : REq(s[k], "0")
               /\ (be = "1" /\ al = "1/2") => \A k \in DOMAIN w : RLe(s[k], RSum(w))
B == [k |-> "arr", sh |-> <<2>>, v |-> <<Iv("-1", "1"), Iv("0", "3/2")>>]
W == <<"2", "1">>
WeakDuality ==
    (cert # <<>> /\ FitCertOk(Mo, norm, A, W, <<>>, <<>>, <<>>, cert, <<>>)) =>
        \A y \in [1..2 -> Cs] : RLe(Objective(Mo, "Tol", norm, A, B, y, W), FitBound(B, W, <<>>, <<>>, cert, <<>>))
\* for data without width the three functionals agree
PointData ==
    (x # <<>> /\ \A i \in 1..2 : REq(Lo(X[i]), Hi(X[i]))) =>
        LET o(f) == Objective(Mo, f, norm, A, B, x, W) IN REq(o("Tol"), o("Uni")) /\ REq(o("Tol"), o("Uss"))
Ordered == x # <<>> => LET o(f) == Objective(Mo, f, norm, A, B, x, W) IN RLe(o("Tol"), o("Uni"))
                                /\ RLe(o("Tol"), o("Uss")) /\ RLe(o("Uni"), o("Uss"))
=============================================================================
