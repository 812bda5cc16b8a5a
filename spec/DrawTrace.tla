------------------------------- MODULE DrawTrace -------------------------------
(* Drawn solution sets.  One run is a history of calls in one process; calls must not    *)
(* influence each other.  events:                                                           *)
(*   "rows" lineqs / lineqs3D:       C (rows <<a1, .., am, b>>), box (<<>> or <<lo, hi>>), res  *)
(*   "ils"  IntLinIncR2 / R3:        a (rows of intervals), b, kind, box, res (one per orthant)  *)
(*   "again" the call of event number Ev.as once more;  "fail" a call that must be refused.      *)
EXTENDS TraceKit, Polygon, TLC
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1
LOCAL MostOf(S) == CHOOSE m \in S : \A y \in S : RLe(y, m)
LOCAL LeastOf(S) == CHOOSE m \in S : \A y \in S : RLe(m, y)
Far == "1048576"
Tol == RPow2(-22)
Dist(p, q) == MostOf({RAbs(RSub(p[j], q[j])) : j \in DOMAIN p})
Mag(p) == MostOf({RAbs(p[j]) : j \in DOMAIN p} \cup {"1"})
Near(p, q) == RLe(Dist(p, q), RMul(Tol, Mag(q)))
IsPoints(r, m) == \/ r.k = "narr" /\ Len(r.sh) = 2 /\ r.sh[2] = m
                  \/ r.k = "narr" /\ r.sh = <<0>>
                  \/ r.k = "seq" /\ r.v = <<>>
Points(r, m) == IF r.k = "seq" \/ Len(r.sh) < 2 THEN <<>> ELSE TLCEval([i \in 1..r.sh[1] |-> SubSeq(r.v, m * (i - 1) + 1, m * i)])
RECURSIVE Squeeze(_)
\* equal neighbours of a closed chain are one point
Squeeze(P) == IF Len(P) > 1 /\ P[Len(P)] = P[1] THEN Squeeze(SubSeq(P, 1, Len(P) - 1))
              ELSE IF \E i \in 2..Len(P) : P[i] = P[i - 1]
                   THEN LET i == CHOOSE i \in 2..Len(P) : P[i] = P[i - 1] IN Squeeze(SubSeq(P, 1, i - 1) \o SubSeq(P, i + 1, Len(P)))
                   ELSE P
Matched(P, V) == TLCEval([i \in DOMAIN P |-> CHOOSE v \in V : Near(P[i], v)])
\* one of the vertices that differ by rounding only
Merged(V) == {CHOOSE u \in V : Near(u, v) : v \in V}
Loose(C, t) == {[c EXCEPT ![Len(c)] = RSub(c[Len(c)], t)] : c \in C}
Rows(C) == {c \in C : ~ZeroRow(c)}
Absurd(C) == \E c \in C : ZeroRow(c) /\ RGt(c[Len(c)], "0")
BoxOf(P, m) == BoxRows([j \in 1..m |-> LeastOf({P[i][j] : i \in DOMAIN P})], [j \in 1..m |-> MostOf({P[i][j] : i \in DOMAIN P})])
RECURSIVE Slim(_, _, _, _)
\* of the sides of a view that was read off the result only those that cut something: the others may
\* differ from a vertex by rounding
Slim(C, keep, sides, m) ==
    IF sides = {} THEN keep
    ELSE LET s == CHOOSE s \in sides : TRUE
             K == C \cup keep \cup (sides \ {s}) \cup Cube(m, Far)
             V == IF m = 2 THEN Corners2(K) ELSE Corners3(K)
         IN Slim(C, IF \A v \in V : RGe(Excess(s, v), RNeg(RMul(Tol, Mag(v)))) THEN keep ELSE keep \cup {s}, sides \ {s}, m)

-----------------------------------------------------------------------------
\* The planar set C, seen through the box (BB: rows of the box, {} if the library chose it)
Planar(C0, BB, r, chosen) ==
    IF ~IsPoints(r, 2) THEN {"ReturnsVertices"}
    ELSE LET P == Points(r, 2)
             C == Rows(C0)
             W == Corners2(C \cup Cube(2, Far))
             open == \E w \in W : \E j \in 1..2 : REq(RAbs(w[j]), Far)
             thin == Collinear(W)
             view == IF ~open THEN {} ELSE IF BB # {} THEN (IF chosen THEN Slim(C, {}, BB, 2) ELSE BB) ELSE Slim(C, {}, BoxOf(P, 2), 2)
             V == Merged(Corners2(C \cup view))
         IN IF Absurd(C0) THEN Need(P = <<>>, "EmptySetHasNoVertices")
            ELSE IF C = {} THEN {}
            ELSE IF P = <<>> THEN
                \* sets without interior may be lost to rounding
                Need(thin \/ (open /\ BB # {} /\ Collinear(Corners2(C \cup BB))), "NotEmpty")
            ELSE IF W = {} THEN Need(Corners2(Loose(C, Tol) \cup Cube(2, Far)) # {}, "EmptySetHasNoVertices")
            \* a ray or line through a view that the library chose
            ELSE IF thin /\ open /\ (BB = {} \/ chosen)
                 THEN Need(\A i \in DOMAIN P : Feasible(Loose(C, RMul(Tol, RMul("64", Mag(P[i])))), P[i]), "OnlyVertices")
                      \cup Need(\A v \in Corners2(C) : \E i \in DOMAIN P : Near(P[i], v), "AllVertices")
            ELSE IF V = {} THEN Need(Corners2(Loose(C \cup view, Tol)) # {}, "EmptySetHasNoVertices")
            ELSE IF \E i \in DOMAIN P : \A v \in V : ~Near(P[i], v) THEN {"OnlyVertices"}
            ELSE LET M == Squeeze(Matched(P, V)) IN
                 Need(\A v \in V : \E i \in DOMAIN P : Near(P[i], v), "AllVertices")
                 \cup Need(~open \/ BB # {} \/ \A v \in Corners2(C) : \E i \in DOMAIN P : Near(P[i], v), "VerticesInView")
                 \cup Need(~open \/ BB # {} \/ thin \/ ~Collinear(V), "ViewHasInterior")
                 \cup Need(GoesAround(M, V), "BoundaryOrder")

-----------------------------------------------------------------------------
\* Space: one polygon for every face.
On(c, V) == {v \in V : RLe(RAbs(Excess(c, v)), RMul(RMul(RPow2(-18), Mag(v)), RSum([j \in 1..3 |-> RAbs(c[j])])))}
\* the plane with the coordinate of its largest normal component left out
Axis(c) == CHOOSE j \in 1..3 : \A i \in 1..3 : RLe(RAbs(c[i]), RAbs(c[j]))
Flat(p, j) == IF j = 1 THEN <<p[2], p[3]>> ELSE IF j = 2 THEN <<p[1], p[3]>> ELSE <<p[1], p[2]>>
FlatSet(V, j) == {Flat(v, j) : v \in V}
IsFacet(c, V) == ~Collinear(FlatSet(On(c, V), Axis(c)))
Faces(r) == TLCEval([k \in DOMAIN r.v |-> Points(r.v[k], 3)])
Diff(p, q) == [j \in 1..3 |-> RSub(q[j], p[j])]
Cross(u, v) == <<Det2(u[2], u[3], v[2], v[3]), Det2(u[3], u[1], v[3], v[1]), Det2(u[1], u[2], v[1], v[2])>>
\* four points that are not in a plane
Solid(V) ==
    /\ Cardinality(V) > 3
    /\ LET p == CHOOSE v \in V : TRUE
           q == CHOOSE v \in V : v # p
           N(r) == Cross(Diff(p, q), Diff(p, r))
           off == {r \in V : \E j \in 1..3 : ~REq(N(r)[j], "0")}
       IN off # {} /\ LET n == N(CHOOSE r \in off : TRUE) IN \E s \in V : ~REq(RDot(n, Diff(p, s)), "0")
Space(C0, BB, r, chosen) ==
    IF ~(r.k = "seq" /\ \A k \in DOMAIN r.v : IsPoints(r.v[k], 3)) THEN {"ReturnsFaces"}
    ELSE LET F == Faces(r)
             PP == UNION {{F[k][i] : i \in DOMAIN F[k]} : k \in DOMAIN F}
             C == Rows(C0)
             W == Corners3(C \cup Cube(3, Far))
             open == \E w \in W : \E j \in 1..3 : REq(RAbs(w[j]), Far)
             solid == Solid(W)
             sides == IF ~open THEN {} ELSE IF BB # {} THEN BB
                      ELSE BoxRows([j \in 1..3 |-> LeastOf({p[j] : p \in PP})], [j \in 1..3 |-> MostOf({p[j] : p \in PP})])
             view == IF BB = {} \/ chosen THEN Slim(C, {}, sides, 3) ELSE sides
             D == C \cup view
             V == Merged(Corners3(D))
         IN IF Absurd(C0) THEN Need(PP = {}, "EmptySetHasNoVertices")
            ELSE IF C = {} THEN {}
            ELSE IF PP = {} THEN Need(~solid \/ (open /\ BB # {} /\ ~Solid(Corners3(C \cup BB))), "NotEmpty")
            ELSE IF W = {} THEN Need(Corners3(Loose(C, Tol) \cup Cube(3, Far)) # {}, "EmptySetHasNoVertices")
            ELSE IF ~solid /\ open /\ (BB = {} \/ chosen)
                 THEN Need(\A p \in PP : Feasible(Loose(C, RMul(Tol, RMul("64", Mag(p)))), p), "OnlyVertices")
                      \cup Need(\A v \in Corners3(C) : \E p \in PP : Near(p, v), "AllVertices")
            ELSE IF V = {} THEN Need(Corners3(Loose(D, Tol)) # {}, "EmptySetHasNoVertices")
            ELSE IF \E p \in PP : \A v \in V : ~Near(p, v) THEN {"OnlyVertices"}
            ELSE IF ~solid THEN {}
            ELSE LET M == TLCEval([k \in DOMAIN F |-> Squeeze(Matched(F[k], V))])
                     Sk == TLCEval([k \in DOMAIN F |-> {M[k][i] : i \in DOMAIN M[k]}])
                     S(k) == Sk[k]
                 IN Need(\A v \in V : \E p \in PP : Near(p, v), "AllVertices")
                    \cup Need(~open \/ BB # {} \/ \A v \in Corners3(C) : \E p \in PP : Near(p, v), "VerticesInView")
                    \cup Need(~open \/ BB # {} \/ Solid(V), "ViewHasInterior")
                    \cup Need(\A c \in D : IsFacet(c, V) => \E k \in DOMAIN F : S(k) = On(c, V), "EveryFaceOnce")
                    \cup Need(\A k \in DOMAIN F : \E c \in C \cup sides : /\ S(k) = On(c, V)
                                                              /\ (Len(M[k]) <= 2 \/ GoesAround(TLCEval([i \in DOMAIN M[k] |-> Flat(M[k][i], Axis(c))]), FlatSet(S(k), Axis(c)))),
                              "FacesInBoundaryOrder")

-----------------------------------------------------------------------------
View(e) == IF e.box = <<>> THEN {} ELSE BoxRows(e.box[1], e.box[2])
Judge(m, C, BB, r, chosen) == IF m = 2 THEN Planar(C, BB, r, chosen) ELSE Space(C, BB, r, chosen)
RowsCall == Ev.op = "rows" /\ Report(Need(Ev.kept, "ArgumentsUnchanged") \cup IF Ev.res.k = "err" THEN {"Answers"} ELSE Judge(Ev.m, SeqToSet(Ev.C), View(Ev), Ev.res, FALSE))
Orthants(m) == IF m = 2 THEN << <<"1", "1">>, <<"-1", "1">>, <<"-1", "-1">>, <<"1", "-1">> >>
               ELSE << <<"1", "1", "1">>, <<"-1", "1", "1">>, <<"-1", "-1", "1">>, <<"1", "-1", "1">>,
                       <<"1", "1", "-1">>, <<"-1", "1", "-1">>, <<"-1", "-1", "-1">>, <<"1", "-1", "-1">> >>
\* every orthant is seen through the same box; where the library chose it, it is the cube that the
\* unbounded parts fill
Parts(e) == TLCEval([k \in 1..Len(Orthants(e.m)) |-> OrthantRows(e.a, e.b, Orthants(e.m)[k], e.kind)])
PartPoints(m, r) == IF m = 2 THEN SeqToSet(Points(r, 2)) ELSE UNION {SeqToSet(Points(r.v[i], 3)) : i \in DOMAIN r.v}
IsOpen(m, C) == LET K == C \cup Cube(m, Far)
                    W == IF m = 2 THEN Corners2(K) ELSE Corners3(K)
                IN \E w \in W : \E j \in 1..m : REq(RAbs(w[j]), Far)
Ils == /\ Ev.op = "ils"
       /\ Report(LET e == Ev
                     m == e.m
                     n == Len(Orthants(m))
                 IN Need(e.kept, "ArgumentsUnchanged") \cup
                    IF e.res.k = "err" THEN {"Answers"}
                    ELSE IF e.res.k # "seq" \/ Len(e.res.v) # n THEN {"OnePartForEveryOrthant"}
                    ELSE IF \E k \in 1..n : IF m = 2 THEN ~IsPoints(e.res.v[k], 2) ELSE ~(e.res.v[k].k = "seq" /\ \A i \in DOMAIN e.res.v[k].v : IsPoints(e.res.v[k].v[i], 3)) THEN {"ReturnsVertices"}
                    ELSE LET C == Parts(e)
                             Open == {k \in 1..n : ~Absurd(C[k]) /\ IsOpen(m, Rows(C[k]))}
                             open == Open # {}
                             P == UNION {PartPoints(m, e.res.v[k]) : k \in Open}
                             t == MostOf({RAbs(p[j]) : <<p, j>> \in P \X (1..m)} \cup {"0"})
                             BB == IF e.box # <<>> THEN BoxRows(e.box[1], e.box[2]) ELSE IF open THEN Cube(m, t) ELSE {}
                         IN UNION {Judge(m, C[k], BB, e.res.v[k], e.box = <<>>) : k \in 1..n}
                            \cup Need(~open \/ e.box # <<>> \/ m # 2 \/ \A k \in Open : \A v \in Corners2(Rows(C[k])) : \A j \in 1..m : RLe(RAbs(v[j]), RMul(t, RAdd("1", Tol))), "VerticesInView"))
Fail == Ev.op = "fail" /\ Report(Need(Ev.res.k = "err" /\ Ev.res.t # "Timeout", "Refuses"))
\* the same call as event number Ev.as of the run, somewhere later in the history
Again == Ev.op = "again" /\ Report(Need(Ev.res = Runs[run].ev[Ev.as].res, "SameCallSameResult"))
Step == More /\ (Again \/ RowsCall \/ Ils \/ Fail) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
