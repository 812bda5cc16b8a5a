------------------------------ MODULE MC_Draw ------------------------------
(* Drawing programs with every small defect, and all short histories of calls: the  *)
(* verdicts of Picture accept the correct ones, however they order and turn what      *)
(* they draw, and blame every other one after some history.                            *)
EXTENDS Picture, TLC
CONSTANTS Depth
Good == {"plain", "turned", "backwards", "order"}
Bad == {"first",     \* always draws on the first axes
        "last",      \* draws on the newest canvas
        "drop",      \* leaves out the last polygon
        "dropdot",   \* leaves out the last dot
        "twice",     \* draws the last polygon again
        "clear",     \* clears the axes
        "spill",     \* also draws on the next axes
        "keep",      \* draws what the call before drew as well
        "colour",    \* uses the colour of the call before
        "outline",   \* does not fill
        "cut",       \* leaves out the last corner
        "cross",     \* swaps two neighbouring corners
        "reuse",     \* opens no new canvas when there is one
        "blank"}     \* opens canvases without drawing
Paths == {<<1>>, <<1, 2>>, <<1, 2, 3, 4>>, <<2, 3, 4>>}
Pics == {<<>>} \cup {<<p>> : p \in Paths} \cup {<<p, q>> : p, q \in {<<1, 2>>, <<1, 2, 3, 4>>}}
Colours == {1, 2}
VARIABLES lib, st, depth
vars == <<lib, st, depth>>
Same(p, q) == p = q
SameArt(a, w) == a.c = w.c /\ a.f = w.f /\ SamePath(a.p, w.p, Same)
SameDot(a, w) == a = w
Arts(pic, c, f) == [k \in DOMAIN pic |-> [p |-> pic[k], c |-> c, f |-> f]]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
DotsOf(pic, c) == LET P == Concat(pic) IN [i \in DOMAIN P |-> [p |-> P[i], c |-> c]]
Want(pic, c) == [polys |-> Arts(pic, c, TRUE), dots |-> DotsOf(pic, c), must |-> DOMAIN pic]
ButLast(s) == IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Turn(p) == Append(Tail(p), Head(p))
Each(pic, F(_)) == [k \in DOMAIN pic |-> F(pic[k])]
\* what the library puts on the axes
Puts(L, s, pic, c0) ==
    LET c == IF L = "colour" /\ s.last.c # 0 THEN s.last.c ELSE c0
        q == CASE L = "turned" -> Each(pic, LAMBDA p : Append(Turn(p), Head(Turn(p))))
               [] L = "backwards" -> Each(pic, Rev)
               [] L = "order" -> Rev(pic)
               [] L = "drop" -> ButLast(pic)
               [] L = "twice" -> pic \o (IF pic = <<>> THEN <<>> ELSE <<pic[Len(pic)]>>)
               [] L = "keep" -> s.last.pic \o pic
               [] L = "cut" -> Each(pic, LAMBDA p : IF Len(p) > 2 THEN ButLast(p) ELSE p)
               [] L = "cross" -> Each(pic, LAMBDA p : IF Len(p) > 3 THEN <<p[2], p[1]>> \o SubSeq(p, 3, Len(p)) ELSE p)
               [] OTHER -> pic
    IN [polys |-> Arts(q, c, L # "outline"), dots |-> IF L = "dropdot" THEN ButLast(DotsOf(pic, c)) ELSE DotsOf(IF L = "keep" THEN s.last.pic \o pic ELSE pic, c)]
Onto(L, a, x) == IF L = "clear" THEN x ELSE [polys |-> a.polys \o x.polys, dots |-> a.dots \o x.dots]
OpenStep(L, s, n, pic, c) ==
    LET x == Puts(L, s, pic, c)
        fresh == [id |-> Len(s.world) + 1, axes |-> [i \in 1..n |-> IF (i = 1 /\ L # "blank") \/ (i = 2 /\ L = "spill") THEN x ELSE Blank]]
        w == IF L = "reuse" /\ s.world # <<>> THEN [s.world EXCEPT ![Len(s.world)].axes[1] = Onto(L, @, x)] ELSE Append(s.world, fresh)
    IN [world |-> w, last |-> [pic |-> pic, c |-> c], bad |-> s.bad \/ OpenWrong(s.world, w, n, Want(pic, c), SameArt, SameDot) # {}]
AddStep(L, s, id, t0, pic, c) ==
    LET x == Puts(L, s, pic, c)
        t == IF L = "first" THEN 1 ELSE t0
        k == IF L = "last" THEN Len(s.world) ELSE id
        T == IF L = "spill" THEN {t, t + 1} ELSE {t}
        w == [s.world EXCEPT ![k].axes = [i \in DOMAIN s.world[k].axes |-> IF i \in T THEN Onto(L, s.world[k].axes[i], x) ELSE s.world[k].axes[i]]]
    IN [world |-> w, last |-> [pic |-> pic, c |-> c], bad |-> s.bad \/ AddWrong(s.world, w, id, t0, Want(pic, c), SameArt, SameDot) # {}]
Succ(L, s) ==
    {OpenStep(L, s, 1, pic, c) : pic \in Pics, c \in Colours}
    \cup {OpenStep(L, s, 2, <<>>, 1)}
    \cup UNION {{AddStep(L, s, id, t, pic, c) : t \in DOMAIN s.world[id].axes, pic \in Pics \ {<<>>}, c \in Colours} : id \in DOMAIN s.world}
RECURSIVE Blamed(_, _, _)
Blamed(L, s, d) == s.bad \/ (d > 0 /\ \E t \in Succ(L, s) : Blamed(L, t, d - 1))
St0 == [world |-> <<>>, last |-> [pic |-> <<>>, c |-> 0], bad |-> FALSE]
Init == lib \in Good \cup Bad /\ st = St0 /\ depth = 0
Next == depth < Depth /\ ~st.bad /\ st' \in Succ(lib, st) /\ depth' = depth + 1 /\ UNCHANGED lib
NoFalseBlame == st.bad => lib \in Bad
EveryDefectShows == depth = 0 /\ lib \in Bad => Blamed(lib, st, 3)
=============================================================================
