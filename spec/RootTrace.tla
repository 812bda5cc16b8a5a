------------------------------ MODULE RootTrace ------------------------------
(* Krawczyk and HansenSengupta as the user's call-backs see them.  A run is one       *)
(* call.  events: "start" (f, X start box, Z zeros, maxiter), "J" / "func" (argument    *)
(* of a call-back), "stop" (res).  The machine holds the last iterate: iterates are       *)
(* nested and none of them loses a zero of the start box.                                 *)
EXTENDS TraceKit, Poly
VARIABLES box, nj
vars == <<run, l, box, nj>>
Init == run \in DOMAIN Runs /\ l = 1 /\ box = <<>> /\ nj = 0
S == Runs[run].ev[1]
Kept(X) == \A k \in DOMAIN S.Z : PointIn(S.Z[k], S.X) => PointIn(S.Z[k], X)
HasAZero == \E k \in DOMAIN S.Z : PointIn(S.Z[k], S.X)
\* all zeros are well outside of the start box
FarOff == \A k \in DOMAIN S.Z : \E j \in DOMAIN S.X : RLe(S.Z[k][j], RSub(Lo(S.X[j]), "1/128")) \/ RGe(S.Z[k][j], RAdd(Hi(S.X[j]), "1/128"))
LOCAL Nan(r) == \E j \in DOMAIN BoxOf(r) : NanIv(BoxOf(r)[j])
Start == Ev.op = "start" /\ box' = Ev.X /\ nj' = 0 /\ Report(Need(\A k \in DOMAIN Ev.Z : IsZero(Ev.f, Ev.Z[k]), "OracleZero"))
Derivative ==
    /\ Ev.op = "J" /\ nj' = nj + 1
    /\ box' = IF ABox(Ev.x, Len(S.X)) THEN BoxOf(Ev.x) ELSE box
    /\ Report(IF ~ABox(Ev.x, Len(S.X)) THEN {"CallBackGetsABox"}
              ELSE Need(InsideBox(BoxOf(Ev.x), box), "IteratesNested") \cup Need(Kept(BoxOf(Ev.x)), "NoZeroLost"))
Function ==
    /\ Ev.op = "func" /\ UNCHANGED <<box, nj>>
    /\ Report(IF ~ABox(Ev.x, Len(S.X)) THEN {"CallBackGetsABox"} ELSE Need(InsideBox(BoxOf(Ev.x), S.X), "CallsInsideTheStartBox"))
Stop ==
    /\ Ev.op = "stop" /\ UNCHANGED <<box, nj>>
    /\ Report(Need(Ev.kept[1] = Ev.kept[2], "ArgumentsUnchanged")
              \cup Need(nj <= S.maxiter + 1, "IterationLimit")
              \cup (IF Ev.res.k = "err"
                    THEN Need(~(HasAZero /\ (S.linear \/ \E k \in DOMAIN S.empty : Ev.res.m = S.empty[k])), "AnswersWhenThereIsAZero") \cup Need(Ev.res.t # "Timeout", "Returns")
                    ELSE IF ~ABox(Ev.res, Len(S.X)) THEN {"ReturnsABox"}
                    ELSE IF Nan(Ev.res) THEN Need(~HasAZero, "NoZeroLost")
                    ELSE Need(InsideBox(BoxOf(Ev.res), box), "InsideTheStartBox") \cup Need(Kept(BoxOf(Ev.res)), "NoZeroLost")
                         \cup Need(~(S.linear /\ FarOff /\ S.full), "EmptinessOfLinearFunctions")
                         \cup Need(~(S.linear /\ HasAZero /\ S.full) \/
                                   \A j \in DOMAIN S.X : RLe(Wid(BoxOf(Ev.res)[j]), RMul(RAdd("1", MagI(S.X[j])), RPow2(-30))), "SharpForLinearFunctions")))
Step == More /\ (Start \/ Derivative \/ Function \/ Stop) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
