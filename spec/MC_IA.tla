------------------------------- MODULE MC_IA -------------------------------
(* The meaning of the operations, checked against its own laws on all small   *)
(* intervals: a register machine whose state is three intervals.              *)
EXTENDS IA, TLC
CONSTANT G                       \* endpoints are -G..G halves
VARIABLES x, y, z, k             \* k: how many are chosen
vars == <<x, y, z, k>>
Ends == {RDiv(RInt(i), "2") : i \in -G..G}
Ivs == {Iv(a, b) : a \in Ends, b \in Ends}
O == Pt("0")
Init == x = O /\ y = O /\ z = O /\ k = 0
PickX == k = 0 /\ x' \in Ivs /\ k' = 1 /\ UNCHANGED <<y, z>>
PickY == k = 1 /\ y' \in Ivs /\ k' = 2 /\ UNCHANGED <<x, z>>
PickZ == k = 2 /\ z' \in Ivs /\ k' = 3 /\ UNCHANGED <<x, y>>
Next == PickX \/ PickY \/ PickZ
Pts(v) == {t \in Ends : Member(t, v)}

ProductsAgree == SameIv(MulI(x, y), MulDef(x, y))
Enclosure ==                     \* united extension: every point operation lands inside
    (Proper(x) /\ Proper(y)) =>
      \A s \in Pts(x), t \in Pts(y) :
        /\ Member(RAdd(s, t), AddI(x, y)) /\ Member(RSub(s, t), SubI(x, y))
        /\ Member(RMul(s, t), MulI(x, y))
        /\ (~HasZero(y)) => Member(RDiv(s, t), DivI(x, y))
        /\ Member(RAbs(s), AbsI(x)) /\ \A n \in 0..4 : Member(RPow(s, n), PowI(x, n))
Attained ==                      \* ... and the ends are attained: nothing tighter is possible
    (Proper(x) /\ Proper(y)) =>
        LET E(v) == {Lo(v), Hi(v)} \cup (IF HasZero(v) THEN {"0"} ELSE {}) IN
        /\ \A e \in {Lo(MulI(x, y)), Hi(MulI(x, y))} : \E s \in E(x), t \in E(y) : RMul(s, t) = e
        /\ (~HasZero(y)) => \A e \in {Lo(DivI(x, y)), Hi(DivI(x, y))} : \E s \in E(x), t \in E(y) : RDiv(s, t) = e
        /\ \A n \in 0..3 : \A e \in {Lo(PowI(x, n)), Hi(PowI(x, n))} : \E s \in E(x) : RPow(s, n) = e
Group ==
    /\ SameIv(AddI(x, Opp(x)), Pt("0"))
    /\ (~HasZero(x)) => SameIv(MulI(x, Inv(x)), Pt("1"))
    /\ SameIv(AddI(x, y), AddI(y, x)) /\ SameIv(MulI(x, y), MulI(y, x))
    /\ SameIv(AddI(AddI(x, y), z), AddI(x, AddI(y, z)))
    /\ SameIv(MulI(MulI(x, y), z), MulI(x, MulI(y, z)))
    /\ SameIv(MulI(x, Pt("1")), x) /\ SameIv(MulI(x, Pt("-1")), NegI(x))
    /\ SameIv(SubI(x, y), AddI(x, NegI(y)))
    /\ SameIv(Opp(x), Dual(NegI(x))) /\ ((~HasZero(x)) => SameIv(Inv(x), Dual(Recip(x))))
Duality ==
    /\ SameIv(Dual(Dual(x)), x)
    /\ SameIv(Dual(AddI(x, y)), AddI(Dual(x), Dual(y)))
    /\ SameIv(Dual(MulI(x, y)), MulI(Dual(x), Dual(y)))
    /\ Proper(Pro(x)) /\ SameIv(Pro(Dual(x)), Pro(x))
Monotone ==                      \* inclusion isotonicity, also for improper intervals
    Includes(y, x) =>
        /\ Includes(AddI(y, z), AddI(x, z)) /\ Includes(MulI(y, z), MulI(x, z))
        /\ Includes(SubI(y, z), SubI(x, z)) /\ Includes(SubI(z, y), SubI(z, x))
        /\ (~HasZero(z)) => Includes(DivI(y, z), DivI(x, z))
        /\ Includes(Dual(x), Dual(y))
Subdistributive ==
    (Proper(x) /\ Proper(y) /\ Proper(z)) => Includes(AddI(MulI(x, y), MulI(x, z)), MulI(x, AddI(y, z)))
LatticeLaws ==
    /\ Includes(JoinI(x, y), x) /\ Includes(JoinI(x, y), y)
    /\ Includes(x, MeetI(x, y)) /\ Includes(y, MeetI(x, y))
    /\ (Includes(z, x) /\ Includes(z, y)) => Includes(z, JoinI(x, y))
=============================================================================
