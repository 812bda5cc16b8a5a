-------------------------------- MODULE Rows --------------------------------
(* Rows of linear systems: the preparation that the drawing functions apply to them,   *)
(* and the normal form C x <= b of two-sided linear constraints.                         *)
EXTENDS Rat, Integers, Sequences, FiniteSets
\* ---- rows up to rounding to dec decimals ----------------------------------------------
Ten(dec) == RPow("10", dec)
Cell(x, dec) == RFloor(RAdd(RMul(x, Ten(dec)), "1/2"))
Cells(row, dec) == [j \in DOMAIN row |-> Cell(row[j], dec)]
Back(c, dec) == [j \in DOMAIN c |-> RDiv(c[j], Ten(dec))]
\* positions of the rows that no earlier row equals, in order
RECURSIVE FirstsFrom(_, _)
FirstsFrom(rows, i) ==
    IF i > Len(rows) THEN <<>>
    ELSE (IF \E j \in 1..(i - 1) : rows[j] = rows[i] THEN <<>> ELSE <<i>>) \o FirstsFrom(rows, i + 1)
Firsts(rows) == FirstsFrom(rows, 1)
Pick(s, at) == [k \in DOMAIN at |-> s[at[k]]]
\* ---- systems A x >= b: rows without an unknown ------------------------------------------
ZeroRow(row) == \A j \in DOMAIN row : REq(row[j], "0")
RECURSIVE NonZeroFrom(_, _)
NonZeroFrom(rows, i) == IF i > Len(rows) THEN <<>> ELSE (IF ZeroRow(rows[i]) THEN <<>> ELSE <<i>>) \o NonZeroFrom(rows, i + 1)
NonZero(rows) == NonZeroFrom(rows, 1)
Possible(rows, b) == \A i \in DOMAIN rows : ZeroRow(rows[i]) => RLe(b[i], "0")
AllGe(rows, b, x) == \A i \in DOMAIN rows : RLe(b[i], RDot(rows[i], x))
\* ---- constraints lb <= C x <= ub (limits may be absent or infinite) -----------------------
\* rows without an unknown are no constraints
Keeps(C, lb, ub, x) == \A i \in DOMAIN C : ZeroRow(C[i]) \/
    (LET v == RDot(C[i], x) IN (lb = <<>> \/ ~RFin(lb[i]) \/ RLe(lb[i], v)) /\ (ub = <<>> \/ ~RFin(ub[i]) \/ RLe(v, ub[i])))
AllLe(N, d, x) == \A i \in DOMAIN N : RLe(RDot(N[i], x), d[i])
RECURSIVE Limits(_, _, _)        \* sign * C x <= sign * limit, for the finite limits
Limits(C, lim, sign) ==
    IF C = <<>> \/ lim = <<>> THEN <<>>
    ELSE (IF RFin(Head(lim)) /\ ~ZeroRow(Head(C))
          THEN <<[c |-> [j \in DOMAIN Head(C) |-> RMul(sign, Head(C)[j])], d |-> RMul(sign, Head(lim))]>> ELSE <<>>)
         \o Limits(Tail(C), Tail(lim), sign)
Normal(C, lb, ub) == Limits(C, lb, "-1") \o Limits(C, ub, "1")
Excess(N, d, i, x) == RMax(RSub(RDot(N[i], x), d[i]), "0")
Penalty(N, d, mu, x) == RMul(mu, RSum([i \in DOMAIN N |-> Excess(N, d, i, x)]))
Beyond(N, d, x) == {i \in DOMAIN N : RGt(RDot(N[i], x), d[i])}
Slope(N, d, mu, x) == [j \in DOMAIN x |-> RMul(mu, RSum([i \in DOMAIN N |-> IF i \in Beyond(N, d, x) THEN N[i][j] ELSE "0"]))]
\* squares of the greatest Lagrange multipliers that a gradient of length at most 1 can have
\* with respect to one row or two linearly independent rows
LOCAL Sq(x) == RMul(x, x)
One(c) == RDiv("1", RDot(c, c))
Two(c, e) == LET g == RSub(RMul(RDot(c, c), RDot(e, e)), Sq(RDot(c, e))) IN IF REq(g, "0") THEN {} ELSE {RDiv(RDot(c, c), g), RDiv(RDot(e, e), g)}
Multipliers(N) == {One(N[i]) : i \in {k \in DOMAIN N : ~ZeroRow(N[k])}} \cup UNION {UNION {Two(N[i], N[j]) : j \in 1..(i - 1)} : i \in DOMAIN N}
\* ---- shapes of nested sequences -----------------------------------------------------------
RECURSIVE NestShape(_)
NestShape(t) == CASE t.k = "leaf" -> <<>> [] t.k = "array" -> t.sh [] t.k = "list" -> <<Len(t.v)>> \o NestShape(t.v[1])
=============================================================================
