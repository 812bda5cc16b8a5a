------------------------------ MODULE ElemCheck ------------------------------
(* Laws that tie the rational enclosures of module Elem to the real functions. *)
EXTENDS Elem, TLC
VARIABLES x, y, started
Vals == {RDiv(RInt(n), d) : n \in -12..12, d \in {"1", "7", "1000"}} \cup
        {RMul(RInt(n), d) : n \in {-5, -2, -1, 1, 3, 700}, d \in {"100001/1000", "1/1000000007", "1000000000000/7"}}
Small(v) == RLt(RAbs(v), "600")
Init == x = "0" /\ y = "0" /\ started = FALSE
Next == ~started /\ x' \in Vals /\ y' \in {"1/3", "-22/7", "2"} /\ started' = TRUE
Thin(i, ref) == RLe(RSub(i[2], i[1]), RMul(RPow2(-80), RMax(RAbs(ref), RPow2(-60))))
Bound(i, v) == Member(v, i)
Trig(v) == LET s == SinCos(v) IN
    /\ Thin(s[1], "1") /\ Thin(s[2], "1")
    /\ Member("1", AddI(MulI(s[1], s[1]), MulI(s[2], s[2])))
Meets(a, b) == RLe(a[1], b[2]) /\ RLe(b[1], a[2])
AddTheorem(u, v) ==
    LET a == SinCos(u) b == SinCos(v) c == SinCos(RAdd(u, v)) IN
    /\ Meets(c[1], AddI(MulI(a[1], b[2]), MulI(a[2], b[1])))
    /\ Meets(c[2], SubI(MulI(a[2], b[2]), MulI(a[1], b[1])))
Derivative ==      \* near 0, sin u = u - u^3/6 .., cos u = 1 - u^2/2 ..
    LET u == "1/1000000007" IN
    /\ RLt(RSub(u, RDiv(RPow(u, 3), "5")), SinI(u)[1]) /\ RLt(SinI(u)[2], u)
    /\ RLt(RSub("1", RMul(u, u)), CosI(u)[1]) /\ RLt(CosI(u)[2], "1")
    /\ RLt(RAdd("1", u), ExpI(u)[1]) /\ RLt(ExpI(u)[2], RAdd("1", RAdd(u, RMul(u, u))))
    /\ RLt(LogI(RAdd("1", u))[2], u) /\ RLt(RSub(u, RMul(u, u)), LogI(RAdd("1", u))[1])
\* Machin's formula, to 2^-410
RECURSIVE AtanSum(_, _, _)
AtanSum(q, k, n) ==      \* sum over j = k .. n of (-1)^j / ((2j+1) q^(2j+1))
    IF k > n THEN "0"
    ELSE RAdd(RDiv(IF k % 2 = 0 THEN "1" ELSE "-1", RMul(RInt(2 * k + 1), RPow(RInt(q), 2 * k + 1))), AtanSum(q, k + 1, n))
PiRaw == RSub(RMul("16", AtanSum(5, 0, 90)), RMul("4", AtanSum(239, 0, 28)))
PiRight == RLt(PiLo, RSub(PiRaw, RPow2(-410))) /\ RLt(RAdd(PiRaw, RPow2(-410)), PiHi) /\ RLe(RSub(PiHi, PiLo), RPow2(-400))
Ln2Right == LET d == SubI(LogM("4/3"), LogM("2/3")) IN
            RLe(d[1], Ln2[1]) /\ RLe(Ln2[2], d[2]) /\ RLe(RSub(d[2], d[1]), RPow2(-100))
Laws ==
    /\ (x = "0" => PiRight /\ Ln2Right /\ Derivative)
    /\ Trig(x) /\ AddTheorem(x, y)
    /\ Small(x) => /\ Thin(ExpI(x), ExpI(x)[2])
                   /\ Meets(MulI(ExpI(x), ExpI(y)), ExpI(RAdd(x, y)))
                   /\ Member(x, <<LogI(ExpI(x)[1])[1], LogI(ExpI(x)[2])[2]>>)
    /\ RLt("0", x) => /\ Thin(LogI(x), RMax("1", LogI(x)[2]))
                      /\ Member(x, ExpR(LogI(x)))
                      /\ Meets(PowR(x, "2"), Pt(RMul(x, x)))
                      /\ Member(x, MulI(PowR(x, "1/2"), PowR(x, "1/2")))
=============================================================================
