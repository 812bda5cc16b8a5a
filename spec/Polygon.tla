-------------------------------- MODULE Polygon --------------------------------
(* Exact polyhedra {x : row.a x >= row.b for every row} in two and three unknowns.   *)
(* A row is <<a1, .., am, b>>.  Points are sequences of canonical exact numbers, so    *)
(* equal points are equal values.                                                       *)
EXTENDS IA, Sequences, FiniteSets, Naturals

NormOf(c) == SubSeq(c, 1, Len(c) - 1)
Excess(c, x) == RSub(RDot(NormOf(c), x), c[Len(c)])
Holds(c, x) == RGe(Excess(c, x), "0")
Feasible(C, x) == \A c \in C : Holds(c, x)
ZeroRow(c) == \A j \in 1..(Len(c) - 1) : REq(c[j], "0")

Det2(a, b, c, d) == RSub(RMul(a, d), RMul(b, c))
Det3(r, s, t) == RAdd(RSub(RMul(r[1], Det2(s[2], s[3], t[2], t[3])), RMul(r[2], Det2(s[1], s[3], t[1], t[3]))),
                      RMul(r[3], Det2(s[1], s[2], t[1], t[2])))
Meet2(c, d) == LET D == Det2(c[1], c[2], d[1], d[2]) IN
               <<RDiv(Det2(c[3], c[2], d[3], d[2]), D), RDiv(Det2(c[1], c[3], d[1], d[3]), D)>>
Col(c, j) == [c EXCEPT ![j] = c[4]]
Meet3(r, s, t) == LET D == Det3(r, s, t) IN [j \in 1..3 |-> RDiv(Det3(Col(r, j), Col(s, j), Col(t, j)), D)]

Corners2Def(C) == {x \in {Meet2(p[1], p[2]) : p \in {q \in C \X C : ~REq(Det2(q[1][1], q[1][2], q[2][1], q[2][2]), "0")}} : Feasible(C, x)}
Corners3Def(C) ==
    LET T == {t \in C \X C \X C : ~REq(Det3(t[1], t[2], t[3]), "0")}
    IN {x \in {Meet3(t[1], t[2], t[3]) : t \in T} : Feasible(C, x)}
\* evaluated by java/Polygon.java
Corners2(C) == Corners2Def(C)
Corners3(C) == Corners3Def(C)

UnitRow(j, m, s, b) == [i \in 1..(m + 1) |-> IF i = j THEN s ELSE IF i = m + 1 THEN b ELSE "0"]
\* the box [lo, hi] as rows
BoxRows(lo, hi) == LET m == Len(lo) IN {UnitRow(j, m, "1", lo[j]) : j \in 1..m} \cup {UnitRow(j, m, "-1", RNeg(hi[j])) : j \in 1..m}
Cube(m, t) == BoxRows([j \in 1..m |-> RNeg(t)], [j \in 1..m |-> t])

Turn(p, q, r) == RSgn(Det2(RSub(q[1], p[1]), RSub(q[2], p[2]), RSub(r[1], p[1]), RSub(r[2], p[2])))
Collinear(V) == Cardinality(V) <= 2 \/ LET p == CHOOSE v \in V : TRUE
                                          q == CHOOSE v \in V : v # p
                                      IN \A r \in V : Turn(p, q, r) = 0
\* the line through p and q leaves V on one side
IsEdge(p, q, V) == (\A r \in V : Turn(p, q, r) >= 0) \/ (\A r \in V : Turn(p, q, r) <= 0)
\* the closed chain P of points of V (neighbours differ) goes once around V
GoesAround(P, V) ==
    /\ {P[i] : i \in DOMAIN P} = V
    /\ Len(P) = Cardinality(V)
    /\ Len(P) > 2 => \A i \in DOMAIN P : IsEdge(P[i], P[(i % Len(P)) + 1], V)
\* x lies in the convex hull of the planar points V
InHull2(x, V) ==
    IF Collinear(V) THEN \E p \in V, q \in V : Turn(p, q, x) = 0 /\ \A j \in 1..2 : RLe(RMin(p[j], q[j]), x[j]) /\ RLe(x[j], RMax(p[j], q[j]))
    ELSE \A p \in V, q \in V : (p # q /\ \A r \in V : Turn(p, q, r) >= 0) => Turn(p, q, x) >= 0

\* an interval system in the orthant with signs s ("1" / "-1"): the rows of the part of the solution
\* set there; lower and upper end of A x are linear in an orthant
EndCoef(el, s, up) == IF (s = "1") = up THEN Hi(el) ELSE Lo(el)
NegRow(r) == [j \in DOMAIN r |-> RNeg(r[j])]
OrthantRows(a, b, s, kind) ==
    LET m == Len(s)
        up(i) == [j \in 1..(m + 1) |-> IF j > m THEN (IF kind = "tol" THEN Hi(b[i]) ELSE Lo(b[i])) ELSE EndCoef(a[i][j], s[j], TRUE)]
        dn(i) == [j \in 1..(m + 1) |-> IF j > m THEN (IF kind = "tol" THEN Lo(b[i]) ELSE Hi(b[i])) ELSE EndCoef(a[i][j], s[j], FALSE)]
    IN {UnitRow(j, m, s[j], "0") : j \in 1..m}
       \cup (IF kind = "tol" THEN {NegRow(up(i)) : i \in DOMAIN a} \cup {dn(i) : i \in DOMAIN a}
             ELSE {up(i) : i \in DOMAIN a} \cup {NegRow(dn(i)) : i \in DOMAIN a})
=============================================================================
