---------------------------- MODULE PictureTrace ----------------------------
(* What the drawing functions put on canvases.  Every event logs all canvases after     *)
(* the call (world).  events:                                                            *)
(*   canvas  n, size                             IPlot(figsize).subplots                  *)
(*   add     fig, nc, index, c, s, black, bad    IPlot.scatter / lineqs / IntLinIncR2:     *)
(*           draw = "boxes" (x, y) or "paths" (paths)                                      *)
(*   show    m, show, res, plain, bounds, all, title, size, save, files, c, s, black       *)
(*           lineqs, IntLinIncR2, lineqs3D, IntLinIncR3; plain: with show=False            *)
EXTENDS TraceKit, Picture
VARIABLES prev
vars == <<run, l, prev>>
Init == run \in DOMAIN Runs /\ l = 1 /\ prev = <<>>
Mag(x) == RMax(RAbs(x), "1")
Eps == RPow2(-24)
Eq(p, q) == Len(p) = Len(q) /\ \A j \in DOMAIN p : RLe(RAbs(RSub(p[j], q[j])), RMul(Eps, RMax(Mag(p[j]), Mag(q[j]))))
Exact(p, q) == Len(p) = Len(q) /\ \A j \in DOMAIN p : REq(p[j], q[j])
LOCAL Colour(a, b) == Len(a) = Len(b) /\ \A j \in DOMAIN a : RLe(RAbs(RSub(a[j], b[j])), RPow2(-18))
\* w.c = <<>>: any colour
SameArt(a, w) == a.f = w.f /\ (w.c = <<>> \/ Colour(a.c, w.c)) /\ SamePath(a.p, w.p, Eq)
\* a dot of size zero cannot be seen
SameDot(a, w) == Eq(a.p, w.p) /\ REq(a.s, w.s) /\ (REq(a.s, "0") \/ Colour(a.c, w.c))
Bare(w) == TLCEval([k \in DOMAIN w |-> [id |-> w[k].id, size |-> w[k].size,
                                        axes |-> [i \in DOMAIN w[k].axes |-> [polys |-> SelectSeq(w[k].axes[i].polys, LAMBDA a : a.p # <<>>), dots |-> w[k].axes[i].dots]]]])
Nothing == [polys |-> <<>>, dots |-> <<>>, must |-> {}]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Filled(paths, c) == [k \in DOMAIN paths |-> [p |-> paths[k], c |-> c, f |-> TRUE]]
Real(paths) == SelectSeq(paths, LAMBDA p : p # <<>>)
DotsOf(paths, c, s) == LET A == Concat(paths) IN [i \in DOMAIN A |-> [p |-> A[i], c |-> c, s |-> s]]
PathsWanted(paths0, c, black, s) == LET paths == Real(paths0) IN
    TLCEval([polys |-> Filled(paths, c), dots |-> DotsOf(paths, black, s), must |-> DOMAIN paths])
\* boxes: filled, one-dimensional ones outlined, points as dots
Flat(x) == REq(x[1], x[2])
BoxesWanted(x, y, c, s) ==
    LET K == SelectSeq([k \in DOMAIN x |-> k], LAMBDA k : ~(Flat(x[k]) /\ Flat(y[k])))
        Z == SelectSeq([k \in DOMAIN x |-> k], LAMBDA k : Flat(x[k]) /\ Flat(y[k]))
    IN TLCEval([polys |-> [i \in DOMAIN K |-> [p |-> Corners(x[K[i]], y[K[i]]), c |-> c, f |-> ~Flat(x[K[i]]) /\ ~Flat(y[K[i]])]],
                dots |-> [i \in DOMAIN Z |-> [p |-> <<x[Z[i]][1], y[Z[i]][1]>>, c |-> c, s |-> s]],
                must |-> DOMAIN K])
\* the limits of an axes let everything be seen
InView(ax) == \A i \in DOMAIN ax.polys : \A k \in DOMAIN ax.polys[i].p : \A j \in DOMAIN ax.lim :
                  LET x == ax.polys[i].p[k][j] slack == RMul(Eps, Mag(x)) IN RLe(ax.lim[j][1], RAdd(x, slack)) /\ RLe(RSub(x, slack), ax.lim[j][2])
\* lines only along what is drawn
Outlines(ax, paths) == \A i \in DOMAIN ax.lines : \A k \in DOMAIN ax.lines[i] : \E w \in DOMAIN paths : \E v \in DOMAIN paths[w] : Eq(ax.lines[i][k], paths[w][v])

\* faces of a solid that may be left out: on a coordinate plane that the set crosses
CanSkip(face, paths) == \E j \in 1..3 : /\ \A i \in DOMAIN face : Eq(<<face[i][j]>>, <<"0">>)
                                        /\ \E k \in DOMAIN paths : \E i \in DOMAIN paths[k] : RLt(paths[k][i][j], "0")
                                        /\ \E k \in DOMAIN paths : \E i \in DOMAIN paths[k] : RGt(paths[k][i][j], "0")
SpaceWanted(paths0, e) ==
    LET paths == Real(paths0)
        all == DotsOf(paths, e.black, e.s)
        must == {k \in DOMAIN paths : e.all \/ ~CanSkip(paths[k], paths)}
    IN TLCEval([polys |-> Filled(paths, <<>>), dots |-> DotsOf([k \in DOMAIN paths |-> IF k \in must THEN paths[k] ELSE <<>>], e.black, e.s), must |-> must])
SameShapes(p, q) == Len(p) = Len(q) /\ \A k \in DOMAIN p : Len(p[k]) = Len(q[k]) /\ \A i \in DOMAIN p[k] : Exact(p[k][i], q[k][i])
\* what a window of lineqs .. IntLinIncR3 has besides the picture
Window(e) ==
    LET f == e.world[Len(e.world)] ax == f.axes[1] IN
    Need(Exact(f.size, e.size), "FigureSize")
    \cup Need(e.m = 3 \/ ax.title = e.title, "Title")
    \cup Need(Len(ax.lim) = e.m, "Dimension")
    \cup Need(Len(ax.lim) # e.m \/ IF e.m = 3 /\ e.bounds # <<>> THEN \A j \in 1..3 : Exact(ax.lim[j], <<e.bounds[1][j], e.bounds[2][j]>>) ELSE InView(ax), "Limits")
    \cup Need(Outlines(ax, Real(e.res)), "Outlines")
    \cup Need(e.m = 2 \/ \A i \in DOMAIN ax.polys : REq(ax.polys[i].c[4], e.c[4]), "Transparency")
    \cup Need(e.m = 2 \/ ~e.real \/ e.bounds # <<>> \/ \E i \in DOMAIN ax.polys : Colour(ax.polys[i].c, e.c), "Colour")
ShowCl(e, now) ==
    IF e.err # <<>> THEN {"DoesNotFail"}
    ELSE Need(SameShapes(e.res, e.plain), "SameVerticesAsWithoutPicture")
         \cup (IF ~e.show THEN Need(now = prev, "NoPicture")
               ELSE IF Real(e.res) = <<>> THEN Need(now = prev, "x") \cap OpenWrong(prev, now, 1, Nothing, SameArt, SameDot)
               ELSE LET want == IF e.m = 2 THEN PathsWanted(e.res, e.c, e.black, e.s) ELSE SpaceWanted(e.res, e)
                        wrong == OpenWrong(prev, now, 1, want, SameArt, SameDot)
                    IN wrong \cup (IF wrong \cap {"OneNewCanvas", "NumberOfAxes"} = {} THEN Window(e) ELSE {}))
         \cup Need(IF e.save /\ e.show /\ Real(e.res) # <<>> THEN e.files = <<e.title \o ".png">>
                   ELSE e.files = <<>> \/ (e.save /\ e.show /\ e.files = <<e.title \o ".png">>), "SavedFile")
AddCl(e, now) ==
    IF e.bad THEN Need(e.err # <<>> \/ (e.draw = "paths" /\ Real(e.paths) = <<>>), "MustRaise") \cup Need(now = prev, "NoPicture")
    ELSE IF e.err # <<>> THEN {"DoesNotFail"}
    ELSE LET want == IF e.draw = "boxes" THEN BoxesWanted(e.x, e.y, e.c, e.s) ELSE PathsWanted(e.paths, e.c, e.black, e.s)
             t == Target(e.nc, e.index)
             wrong == AddWrong(prev, now, e.fig, t, want, SameArt, SameDot)
         IN wrong \cup (IF wrong # {} THEN {} ELSE Need(InView(e.world[CHOOSE k \in DOMAIN e.world : e.world[k].id = e.fig].axes[t]), "Limits"))
CanvasCl(e, now) ==
    IF e.err # <<>> THEN {"DoesNotFail"}
    ELSE LET wrong == OpenWrong(prev, now, e.n, Nothing, SameArt, SameDot) IN
         wrong \cup (IF wrong = {} THEN Need(Exact(e.world[Len(e.world)].size, e.size), "FigureSize") ELSE {})
Clauses(e, now) == CASE e.op = "canvas" -> CanvasCl(e, now) [] e.op = "add" -> AddCl(e, now) [] e.op = "show" -> ShowCl(e, now)
Step == /\ More
        /\ LET now == Bare(Ev.world) IN Report(Clauses(Ev, now)) /\ prev' = now
        /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
