------------------------------- MODULE MC_Zeros -------------------------------
(* Contraction machine: a box is cut by Krawczyk's operator or by Newton's quotient   *)
(* at any point of the box, in any order, with outward rounding.  No zero of the start  *)
(* box is lost, boxes are nested, and an empty box means there was no zero.              *)
EXTENDS Poly, TLC
CONSTANTS Steps, Deep
VARIABLES r, X, X0, n
vars == <<r, X, X0, n>>
Roots == {"-1", "0", "1/2", "2"} \cup (IF Deep THEN {"-3/2", "5/4"} ELSE {})
F(x) == MulI(SubI(x, Pt(r[1])), SubI(x, Pt(r[2])))
DF(x) == AddI(SubI(x, Pt(r[1])), SubI(x, Pt(r[2])))
Out(x) == Iv(RGridDn(Lo(x), -3), RGridUp(Hi(x), -3))
Empty(x) == RLt(Hi(x), Lo(x))
Init == r \in Roots \X Roots /\ n = 0 /\ X0 \in {Iv("-2", "3"), Iv("0", "1"), Iv("1/4", "9/4"), Iv("-1", "-1/2"), Iv("3/2", "4"), Iv("5/2", "3")} /\ X = X0
Points == {Mid(X), Lo(X)}
Krawczyk(c) == LET d == DF(X) lam == RDiv("1", Mid(d)) IN
    Out(AddI(SubI(Pt(c), MulI(Pt(lam), F(Pt(c)))), MulI(SubI(Pt("1"), MulI(Pt(lam), d)), SubI(X, Pt(c)))))
Newton(c) == Out(SubI(Pt(c), DivI(F(Pt(c)), DF(X))))
Next == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<r, X0>> /\ ~Empty(X)
        /\ \E c \in Points : \/ ~REq(Mid(DF(X)), "0") /\ X' = MeetI(X, Krawczyk(c))
                             \/ ~HasZero(DF(X)) /\ X' = MeetI(X, Newton(c))
NoneLost == \A k \in 1..2 : Member(r[k], X0) => Member(r[k], X)
Nested == Empty(X) \/ Includes(X0, X)
=============================================================================
