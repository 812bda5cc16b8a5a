------------------------------ MODULE MC_Polygon ------------------------------
(* The boundary interval method over exact numbers, on every small system of rows:     *)
(* for each row the part [q0, q1] of its line that satisfies the other rows, then the    *)
(* walk from end to start.  The walk goes once around the polygon and visits exactly     *)
(* the corners; orthant rows describe the parts of the solution set.                      *)
EXTENDS Polygon, Integers, TLC
CONSTANTS Rows, Deep
VARIABLES sys, i, k, q, segs, path, rest
vars == <<sys, i, k, q, segs, path, rest>>
B == Cube(2, "2")
Cf == {"-1", "0", "1"} \cup (IF Deep THEN {"2"} ELSE {})
Pool == {c \in Cf \X Cf \X (IF Deep THEN {"-2", "-1", "0", "1"} ELSE {"-1", "0", "1"}) : ~ZeroRow(c)}
BoxSeq == <<<<"1", "0", "-2">>, <<"0", "1", "-2">>, <<"-1", "0", "-2">>, <<"0", "-1", "-2">>>>
Nil == <<"-inf", "inf">>
Init == sys = BoxSeq /\ i = 0 /\ k = 1 /\ q = Nil /\ segs = <<>> /\ path = <<>> /\ rest = <<>>
C == {sys[j] : j \in DOMAIN sys}
\* rows are added in increasing order of their position in the pool
Grow == /\ i = 0 /\ Len(sys) < 4 + Rows
        /\ \E c \in Pool : c \notin C /\ sys' = Append(sys, c)
        /\ UNCHANGED <<i, k, q, segs, path, rest>>
Begin == i = 0 /\ i' = 1 /\ UNCHANGED <<sys, k, q, segs, path, rest>>
Base(c) == LET t == RDiv(c[3], RDot(NormOf(c), NormOf(c))) IN <<RMul(c[1], t), RMul(c[2], t)>>
Dir(c) == <<RNeg(c[2]), c[1]>>
At2(c, t) == <<RAdd(Base(c)[1], RMul(Dir(c)[1], t)), RAdd(Base(c)[2], RMul(Dir(c)[2], t))>>
Next2 == i' = i + 1 /\ k' = 1 /\ q' = Nil
Cut ==  /\ i \in DOMAIN sys /\ k <= Len(sys)
        /\ LET c == sys[i]
               d == sys[k]
               s == RDot(NormOf(d), Dir(c))
               t == RDiv(RNeg(Excess(d, Base(c))), s)
           IN IF k = i THEN k' = k + 1 /\ UNCHANGED <<i, q>>
              ELSE IF RSgn(s) = -1 THEN q' = <<q[1], RMin(q[2], t)>> /\ k' = k + 1 /\ UNCHANGED i
              ELSE IF RSgn(s) = 1 THEN q' = <<RMax(q[1], t), q[2]>> /\ k' = k + 1 /\ UNCHANGED i
              \* a parallel row is stricter, or the same one met before
              ELSE IF ~Holds(d, Base(c)) \/ (RGt(RDot(NormOf(c), NormOf(d)), "0") /\ REq(Excess(d, Base(c)), "0") /\ k < i) THEN Next2
              ELSE k' = k + 1 /\ UNCHANGED <<i, q>>
        /\ UNCHANGED <<sys, segs, path, rest>>
Keep == /\ i \in DOMAIN sys /\ k > Len(sys)
        /\ segs' = IF RLe(q[1], q[2]) THEN Append(segs, <<At2(sys[i], q[1]), At2(sys[i], q[2])>>) ELSE segs
        /\ Next2 /\ UNCHANGED <<sys, path, rest>>
Walk0 == i = Len(sys) + 1 /\ segs # <<>> /\ path = <<>> /\ path' = <<segs[1][1]>> /\ rest' = segs /\ UNCHANGED <<sys, i, k, q, segs>>
Drop(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Here == {j \in DOMAIN rest : rest[j][1] = path[Len(path)]}
Closed == Len(path) > 1 /\ path[1] = path[Len(path)]
Walk == /\ path # <<>> /\ ~Closed /\ Here # {}
        /\ \E j \in Here : rest' = Drop(rest, j) /\ path' = IF rest[j][2] = path[Len(path)] THEN path ELSE Append(path, rest[j][2])
        /\ UNCHANGED <<sys, i, k, q, segs>>
Next == Grow \/ Begin \/ Cut \/ Keep \/ Walk0 \/ Walk
Done == i = Len(sys) + 1 /\ (segs = <<>> \/ (path # <<>> /\ (Closed \/ Here = {})))
V == Corners2(C)
Chain == IF Closed THEN SubSeq(path, 1, Len(path) - 1) ELSE path
WalkIsTheBoundary == Done => GoesAround(Chain, V)
CornersAgree == (i = 1 /\ k = 1) => Corners2(C) = Corners2Def(C)
NothingFound == (Done /\ segs = <<>>) => V = {}
Lattice == {<<RInt(x), RInt(y)>> : x \in -2..2, y \in -2..2}
HullIsTheSet == (i = 1 /\ k = 1) => \A x \in Lattice : Feasible(C, x) <=> (V # {} /\ InHull2(x, V))
=============================================================================
