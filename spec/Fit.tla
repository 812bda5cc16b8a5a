--------------------------------- MODULE Fit ---------------------------------
(* Regression models: WILS (a linear system with weighted rows) and ISPAE (sums of  *)
(* one polynomial for every column).  Both maximize a functional of the residuals   *)
(* of rows; here is what the functionals and the predictions mean exactly.           *)
EXTENDS Optim, Univar

\* exponential smoothing of the weights: a row remembers the smoothed weight of the row before
RECURSIVE SmoothAt(_, _, _, _)
SmoothAt(alpha, beta, w, k) ==
    RMul(beta, RAdd(RMul(w[k], RSub("1", alpha)), IF k = 1 THEN "0" ELSE RMul(alpha, SmoothAt(alpha, beta, w, k - 1))))
Smoothed(alpha, beta, w) == TLCEval([k \in DOMAIN w |-> SmoothAt(alpha, beta, w, k)])

\* a model: [cls, basis, order, bias].  The coefficients of ISPAE are those of the constant (if the
\* model has a bias), then those of the basis polynomials of degree 1, 2, ... for every column.
RECURSIVE Upto(_, _)
Upto(s, k) == IF k = 0 THEN 0 ELSE s[k] + Upto(s, k - 1)
LOCAL Off(mo) == IF mo.bias THEN 1 ELSE 0
NCoef(mo, X) == IF mo.cls = "WILS" THEN NCols(X) ELSE Off(mo) + Upto(mo.order, Len(mo.order))
\* the polynomial of column c
ColPoly(mo, x, c) ==
    LET s == Off(mo) + Upto(mo.order, c - 1)
        RECURSIVE Add(_)
        Add(d) == IF d = 0 THEN <<"0">> ELSE UPlus(Add(d - 1), UTimes(x[s + d], BasisTable[mo.basis][d]))
    IN Add(mo.order[c])
\* exact values of the model on a row: the columns are independent
ModelPolys(mo, X, x) == IF mo.cls = "WILS" THEN <<>> ELSE TLCEval([c \in 1..NCols(X) |-> ColPoly(mo, x, c)])
ModelRow(mo, X, x, polys, i) ==
    IF mo.cls = "WILS" THEN RowAt(X, i, x)
    ELSE LET r == TLCEval([c \in 1..NCols(X) |-> URange(polys[c], El(X, i, c))])
             b == IF mo.bias THEN x[1] ELSE "0"
         IN Iv(RAdd(b, RSum([c \in DOMAIN r |-> Lo(r[c])])), RAdd(b, RSum([c \in DOMAIN r |-> Hi(r[c])])))
\* the values of the features at a point z of a row
FeatureAt(mo, z) ==
    IF mo.cls = "WILS" THEN z
    ELSE (IF mo.bias THEN <<"1">> ELSE <<>>) \o
         LET RECURSIVE Cols(_)
             Cols(c) == IF c > Len(z) THEN <<>> ELSE [d \in 1..mo.order[c] |-> UAt(BasisTable[mo.basis][d], z[c])] \o Cols(c + 1)
         IN TLCEval(Cols(1))
\* ranges of the features one by one (what a prediction may not exceed)
FeatureRange(mo, X, i) ==
    (IF mo.bias THEN <<Pt("1")>> ELSE <<>>) \o
    LET RECURSIVE Cols(_)
        Cols(c) == IF c > NCols(X) THEN <<>> ELSE [d \in 1..mo.order[c] |-> URange(BasisTable[mo.basis][d], El(X, i, c))] \o Cols(c + 1)
    IN TLCEval(Cols(1))
TermsRow(mo, X, x, i) == LET f == FeatureRange(mo, X, i)
                             t == TLCEval([k \in DOMAIN f |-> MulI(Pt(x[k]), f[k])])
                         IN Iv(RSum([k \in DOMAIN t |-> Lo(t[k])]), RSum([k \in DOMAIN t |-> Hi(t[k])]))
\* what rounding may be proportional to
RowScale(mo, X, x, i) ==
    IF mo.cls = "WILS" THEN RSum([j \in 1..NCols(X) |-> RMul(MagI(El(X, i, j)), RAbs(x[j]))])
    ELSE LET RECURSIVE Cols(_)
             Cols(c) == IF c > NCols(X) THEN "0"
                        ELSE RAdd(RSum([d \in 1..mo.order[c] |-> RMul(RAbs(x[Off(mo) + Upto(mo.order, c - 1) + d]),
                                                                        UAbsAt(BasisTable[mo.basis][d], MagI(El(X, i, c))))]), Cols(c + 1))
         IN RAdd(IF mo.bias THEN RAbs(x[1]) ELSE "0", Cols(1))

\* the functional of one row with values V and target b
FormV(f, b, V) == LET d == SubI(Pt(Mid(b)), V)
                  IN CASE f = "Tol" -> RSub(Rad(b), MagI(d))
                       [] f = "Uni" -> RSub(Rad(b), MigI(d))
                       [] f = "Uss" -> RSub(RAdd(Rad(b), Rad(V)), RAbs(Mid(d)))
LOCAL FMin(S) == CHOOSE m \in S : \A y \in S : RLe(m, y)
Combine(norm, v) == IF norm = "l1" THEN RSum(v) ELSE FMin({v[i] : i \in DOMAIN v})
Objective(mo, f, norm, X, b, x, w) ==
    LET polys == ModelPolys(mo, X, x)
    IN Combine(norm, TLCEval([i \in 1..NRows(X) |-> RMul(w[i], FormV(f, Rhs(b, i), ModelRow(mo, X, x, polys, i)))]))

\* Certificates: pieces [i, s, z, lam] at points z of the rows (weights lam add up to 1, for l1 in every
\* row), whose slopes cancel together with those of the constraints.
LegalPoint(X, p) == /\ p.i \in 1..NRows(X) /\ p.s \in {1, -1} /\ Len(p.z) = NCols(X) /\ RGe(p.lam, "0")
                    /\ \A j \in 1..NCols(X) : Member(p.z[j], El(X, p.i, j))
FitCertOk(mo, norm, X, w, C, lb, ub, P, Q) ==
    /\ \A k \in DOMAIN P : LegalPoint(X, P[k])
    /\ \A k \in DOMAIN Q : LegalCon(C, lb, ub, Q[k])
    /\ IF norm = "l1" THEN \A i \in 1..NRows(X) : REq(RSum([k \in DOMAIN P |-> IF P[k].i = i THEN P[k].lam ELSE "0"]), "1")
       ELSE REq(RSum([k \in DOMAIN P |-> P[k].lam]), "1")
    /\ LET a == TLCEval([k \in DOMAIN P |-> FeatureAt(mo, P[k].z)])
       IN \A j \in 1..NCoef(mo, X) :
             REq(RAdd(RSum([k \in DOMAIN P |-> RMul(RMul(P[k].lam, w[P[k].i]), RMul(RInt(-P[k].s), a[k][j]))]),
                      RSum([k \in DOMAIN Q |-> RMul(Q[k].lam, ConSlope(C, Q[k], j))])), "0")
FitBound(b, w, lb, ub, P, Q) == CertBound(b, w, lb, ub, P, Q)

\* gradient of the functional of a linear model where it is smooth
LinGrad(f, norm, A, b, x, w) ==
    IF norm = "inf" THEN GradRow(f, A, b, x, ActiveRow(f, A, b, x, w))
    ELSE LET g == TLCEval([i \in 1..NRows(A) |-> GradRow(f, A, b, x, i)])
         IN [j \in 1..NCols(A) |-> RSum([i \in 1..NRows(A) |-> RMul(w[i], g[i][j])])]
LinSmooth(f, norm, A, b, x, w, h) == IF norm = "inf" THEN SmoothAround(f, A, b, x, w, h) ELSE SmoothRows(f, A, b, x, h)
=============================================================================
