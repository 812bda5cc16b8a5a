-------------------------------- MODULE Optim --------------------------------
(* Certificates of optimality for the concave functional Tol (and for Uni, Uss  *)
(* on point matrices).  A constituent is a minimum of affine pieces             *)
(*     rad b_i + s (mid b_i - a x),  a in row A_i, s = 1 or -1,                  *)
(* so a convex combination of weighted pieces, plus non-negative multiples of    *)
(* satisfied constraints, whose slopes cancel, is an upper bound of the          *)
(* functional at every admissible point (weak duality, checked by MC_Optim).     *)
EXTENDS LinSys

\* piece: [i, s, a, lam]; a constraint lb <= C x <= ub contributes [r, s, lam] (s = 1: ub, -1: lb)
LegalPiece(A, p) == /\ p.i \in 1..NRows(A) /\ p.s \in {1, -1} /\ Len(p.a) = NCols(A) /\ RGe(p.lam, "0")
                    /\ \A j \in 1..NCols(A) : Member(p.a[j], El(A, p.i, j))
LegalCon(C, lb, ub, c) == c.r \in DOMAIN C /\ c.s \in {1, -1} /\ RGe(c.lam, "0") /\ RFin(IF c.s = 1 THEN ub[c.r] ELSE lb[c.r])
PieceConst(b, w, p) == RMul(w[p.i], RAdd(Rad(Rhs(b, p.i)), RMul(RInt(p.s), Mid(Rhs(b, p.i)))))
PieceSlope(w, p, j) == RMul(w[p.i], RMul(RInt(-p.s), p.a[j]))
\* s = 1: ub - C x >= 0; s = -1: C x - lb >= 0
ConConst(lb, ub, c) == IF c.s = 1 THEN ub[c.r] ELSE RNeg(lb[c.r])
ConSlope(C, c, j) == RMul(RInt(-c.s), C[c.r][j])

CertBound(b, w, lb, ub, P, Q) ==
    RAdd(RSum([k \in DOMAIN P |-> RMul(P[k].lam, PieceConst(b, w, P[k]))]),
         RSum([k \in DOMAIN Q |-> RMul(Q[k].lam, ConConst(lb, ub, Q[k]))]))
CertOk(A, b, w, C, lb, ub, P, Q) ==
    /\ \A k \in DOMAIN P : LegalPiece(A, P[k])
    /\ \A k \in DOMAIN Q : LegalCon(C, lb, ub, Q[k])
    /\ REq(RSum([k \in DOMAIN P |-> P[k].lam]), "1")
    /\ \A j \in 1..NCols(A) :
          REq(RAdd(RSum([k \in DOMAIN P |-> RMul(P[k].lam, PieceSlope(w, P[k], j))]),
                   RSum([k \in DOMAIN Q |-> RMul(Q[k].lam, ConSlope(C, Q[k], j))])), "0")
\* The gradient of the functional where it is smooth.  -ChebNorm is Tol of the dual right-hand side.
LOCAL Res(A, b, x, i) == RSub(Mid(Rhs(b, i)), RDot([j \in 1..NCols(A) |-> Mid(El(A, i, j))], x))
LOCAL Spread(A, x, i) == RDot([j \in 1..NCols(A) |-> Rad(El(A, i, j))], [j \in 1..NCols(A) |-> RAbs(x[j])])
LOCAL Steep(A, i) == RSum([j \in 1..NCols(A) |-> MagI(El(A, i, j))])
LOCAL SignTimes(s, y) == IF RGe(s, "0") THEN y ELSE RNeg(y)
GradRow(f, A, b, x, i) ==
    [j \in 1..NCols(A) |->
        LET c == SignTimes(Res(A, b, x, i), Mid(El(A, i, j)))
            r == SignTimes(x[j], Rad(El(A, i, j)))
        IN IF f \in {"Tol", "Cheb"} THEN RSub(c, r)
           ELSE IF f = "Uni" /\ RLe(RAbs(Res(A, b, x, i)), Spread(A, x, i)) THEN "0"
           ELSE RAdd(c, r)]
ActiveRow(f, A, b, x, w) == LET v == [i \in 1..NRows(A) |-> RMul(w[i], Form(f, A, b, x, i))]
                            IN CHOOSE i \in DOMAIN v : \A k \in DOMAIN v : RLe(v[i], v[k])
\* no piece of a row, of any row, of the functional changes within the distance h of x
SmoothRow(f, A, b, x, h, i) ==
    LET steep == RMul(RMul("4", h), Steep(A, i))
    IN /\ RGt(RAbs(Res(A, b, x, i)), steep)
       /\ f = "Uni" => RGt(RAbs(RSub(RAbs(Res(A, b, x, i)), Spread(A, x, i))), RMul("2", steep))
SmoothRows(f, A, b, x, h) == /\ \A j \in DOMAIN x : RGt(RAbs(x[j]), RMul("2", h))
                             /\ \A i \in 1..NRows(A) : SmoothRow(f, A, b, x, h, i)
SmoothAround(f, A, b, x, w, h) ==
    LET i == ActiveRow(f, A, b, x, w)
        v == [k \in 1..NRows(A) |-> RMul(w[k], Form(f, A, b, x, k))]
        steep(k) == RMul(RMul("4", h), Steep(A, k))
    IN /\ \A j \in DOMAIN x : RGt(RAbs(x[j]), RMul("2", h))
       /\ \A k \in 1..NRows(A) \ {i} : RGt(RSub(v[k], v[i]), RAdd(RMul(w[k], steep(k)), RMul(w[i], steep(i))))
       /\ SmoothRow(f, A, b, x, h, i)

\* how far x is from satisfying the constraints
Excess(C, lb, ub, x) ==
    LET e == UNION {{RSub(RDot(C[r], x), ub[r]), RSub(lb[r], RDot(C[r], x))} : r \in DOMAIN C} \cup {"0"}
    IN CHOOSE m \in e : \A y \in e : RNan(y) \/ RLe(y, m)
=============================================================================
