------------------------------- MODULE Picture -------------------------------
(* Pictures.  A canvas (figure) is a sequence of axes; axes carry filled or outlined    *)
(* polygons and dots.  A polygon is a closed path: where it starts, which way it runs     *)
(* and repeated points do not matter.  A program draws on canvases through calls; every     *)
(* call adds what it has to show to the axes it names and leaves the others alone.           *)
EXTENDS Integers, Sequences, FiniteSets
\* Eq(p, q): the same point
Tidy(P, Eq(_, _)) ==                              \* without points equal to their (cyclic) predecessor
    LET Q == SelectSeq([i \in DOMAIN P |-> <<i, P[i]>>], LAMBDA q : q[1] = 1 \/ ~Eq(P[q[1] - 1], q[2]))
        n == Len(Q)
        m == IF n > 1 /\ Eq(Q[1][2], Q[n][2]) THEN n - 1 ELSE n
    IN [i \in 1..m |-> Q[i][2]]
LOCAL At(P, i) == P[((i - 1) % Len(P)) + 1]
SamePath(P0, Q0, Eq(_, _)) ==
    LET P == Tidy(P0, Eq) Q == Tidy(Q0, Eq) n == Len(P) IN
    /\ Len(Q) = n
    /\ n = 0 \/ \E s \in 0..n - 1 : \/ \A i \in 1..n : Eq(P[i], At(Q, i + s))
                                    \/ \A i \in 1..n : Eq(P[i], At(Q, n + s + 1 - i))
PointsOf(paths) == UNION {{paths[k][i] : i \in DOMAIN paths[k]} : k \in DOMAIN paths}
\* the corners of a box; its picture is a filled box, an outlined segment or a dot
Corners(x, y) == << <<x[1], y[1]>>, <<x[1], y[2]>>, <<x[2], y[2]>>, <<x[2], y[1]>> >>
\* the axes that a call draws on: the ones asked for (counted from 0), or the first
Target(ncols, index) == IF index = <<>> THEN 1 ELSE IF Len(index) = 1 THEN index[1] + 1 ELSE index[1] * ncols + index[2] + 1
Extends(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
New(a, b) == SubSeq(b, Len(a) + 1, Len(b))

-----------------------------------------------------------------------------
(* Verdicts.  world: a sequence of canvases [id, axes], axes: a sequence of              *)
(* [polys |-> sequence, dots |-> sequence].  SameArt(a, w), SameDot(a, w): drawn as      *)
(* wanted.  want: [polys, dots, must], must: the numbers of the polygons that have to be  *)
(* shown (the others may be).  Every operator yields the names of what is wrong.          *)
LOCAL If(c, name) == IF c THEN {} ELSE {name}
LOCAL Count(w, arts, SameArt(_, _)) == Cardinality({i \in DOMAIN arts : SameArt(arts[i], w)})
AxesWrong(a, b, want, SameArt(_, _), SameDot(_, _)) ==
    IF ~(Extends(a.polys, b.polys) /\ Extends(a.dots, b.dots)) THEN {"KeepsWhatIsThere"}
    ELSE LET P == New(a.polys, b.polys) D == New(a.dots, b.dots) IN
         If(\A k \in want.must : Count(want.polys[k], P, SameArt) > 0, "ShowsAll")
         \cup If(\A i \in DOMAIN P : \E k \in DOMAIN want.polys : SameArt(P[i], want.polys[k]), "ShowsNothingElse")
         \cup If(\A k \in want.must : Count(want.polys[k], P, SameArt) <= Count(want.polys[k], want.polys, SameArt), "ShowsOnce")
         \cup If(\A i \in DOMAIN want.dots : \E j \in DOMAIN D : SameDot(D[j], want.dots[i]), "ShowsAllDots")
         \cup If(\A j \in DOMAIN D : \E i \in DOMAIN want.dots : SameDot(D[j], want.dots[i]), "ShowsNoOtherDots")
Blank == [polys |-> <<>>, dots |-> <<>>]
\* a call that opens a canvas of n axes and draws on the first
OpenWrong(before, after, n, want, SameArt(_, _), SameDot(_, _)) ==
    IF ~(Len(after) = Len(before) + 1 /\ SubSeq(after, 1, Len(before)) = before) THEN {"OneNewCanvas"}
    ELSE LET f == after[Len(after)].axes IN
         IF Len(f) # n THEN {"NumberOfAxes"}
         ELSE AxesWrong(Blank, f[1], want, SameArt, SameDot) \cup UNION {AxesWrong(Blank, f[i], [polys |-> <<>>, dots |-> <<>>, must |-> {}], SameArt, SameDot) : i \in 2..n}
\* a call that draws on the axes t of the canvas id
AddWrong(before, after, id, t, want, SameArt(_, _), SameDot(_, _)) ==
    IF ~(Len(after) = Len(before) /\ \A k \in DOMAIN before : after[k].id = before[k].id /\ (before[k].id = id \/ after[k] = before[k])) THEN {"OtherCanvases"}
    ELSE LET k == CHOOSE k \in DOMAIN before : before[k].id = id
             a == before[k].axes b == after[k].axes
         IN IF Len(a) # Len(b) THEN {"NumberOfAxes"}
            ELSE If(\A i \in DOMAIN a : i = t \/ a[i] = b[i], "OtherAxes") \cup AxesWrong(a[t], b[t], want, SameArt, SameDot)
=============================================================================
