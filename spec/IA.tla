--------------------------------- MODULE IA ---------------------------------
(* Exact interval arithmetic: what the library's operations mean.            *)
(* An interval is a tuple <<lo, hi, class>> of exact numbers (module Rat);    *)
(* proper when lo <= hi, improper otherwise.  The third component ("C" or     *)
(* "K", the library's class) is carried by observations and ignored here.     *)
EXTENDS Integers, Sequences, FiniteSets, Rat

\* The set {name} if the condition fails, the empty set if it holds.
Need(cond, name) == IF cond THEN {} ELSE {name}

LOCAL SetMin(S) == CHOOSE m \in S : \A y \in S : RLe(m, y)
LOCAL SetMax(S) == CHOOSE m \in S : \A y \in S : RLe(y, m)

Iv(a, b) == <<a, b>>
Pt(a) == <<a, a>>
Lo(x) == x[1]
Hi(x) == x[2]
Proper(x) == RLe(Lo(x), Hi(x))
FiniteIv(x) == RFin(Lo(x)) /\ RFin(Hi(x))
NanIv(x) == RNan(Lo(x)) \/ RNan(Hi(x))
SameNum(a, b) == REq(a, b) \/ (RNan(a) /\ RNan(b))
SameIv(x, y) == SameNum(Lo(x), Lo(y)) /\ SameNum(Hi(x), Hi(y))

Pro(x) == IF Proper(x) THEN Iv(Lo(x), Hi(x)) ELSE Iv(Hi(x), Lo(x))
Dual(x) == Iv(Hi(x), Lo(x))
Opp(x) == Iv(RNeg(Lo(x)), RNeg(Hi(x)))
Inv(x) == Iv(RDiv("1", Lo(x)), RDiv("1", Hi(x)))   \* algebraic inverse, 0 not in pro x
NegI(x) == Iv(RNeg(Hi(x)), RNeg(Lo(x)))

\* Order of the interval space
Includes(x, y) == RLe(Lo(x), Lo(y)) /\ RLe(Hi(y), Hi(x))        \* y is a part of x
Member(t, x) == RLe(Lo(x), t) /\ RLe(t, Hi(x))
HasZero(x) == Member("0", Pro(x))

AddI(x, y) == Iv(RAdd(Lo(x), Lo(y)), RAdd(Hi(x), Hi(y)))
SubI(x, y) == Iv(RSub(Lo(x), Hi(y)), RSub(Hi(x), Lo(y)))

\* Products by the definition of Kaucher's arithmetic: for a proper operand the
\* join over its points, for an improper one the meet.  s*t is bilinear, so the
\* extremes over an operand are at its ends or, for the inner extreme as a
\* function of the outer variable, at zero.
Cand(x) == {Lo(x), Hi(x)} \cup (IF HasZero(x) THEN {"0"} ELSE {})
OptLo(x, S) == IF Proper(x) THEN SetMin(S) ELSE SetMax(S)
OptHi(x, S) == IF Proper(x) THEN SetMax(S) ELSE SetMin(S)
MulDef(x, y) ==
    Iv(OptLo(x, {OptLo(y, {RMul(s, t) : t \in Cand(y)}) : s \in Cand(x)}),
       OptHi(x, {OptHi(y, {RMul(s, t) : t \in Cand(y)}) : s \in Cand(x)}))

\* The same product by Lakeyev's formulas, as fast as evaluation allows
\* (MC_IA checks that both agree on all small intervals).
LOCAL Pos(a) == RMax(a, "0")
LOCAL NegP(a) == RMax(RNeg(a), "0")
MulI(x, y) ==
    LET a == Lo(x) b == Hi(x) c == Lo(y) d == Hi(y) IN
    IF RLe(a, b) /\ RLe(c, d)
    THEN LET p == RMul(a, c) q == RMul(a, d) r == RMul(b, c) s == RMul(b, d)
         IN Iv(RMin(RMin(p, q), RMin(r, s)), RMax(RMax(p, q), RMax(r, s)))
    ELSE Iv(RSub(RMax(RMul(Pos(a), Pos(c)), RMul(NegP(b), NegP(d))),
                 RMax(RMul(Pos(b), NegP(c)), RMul(NegP(a), Pos(d)))),
            RSub(RMax(RMul(Pos(b), Pos(d)), RMul(NegP(a), NegP(c))),
                 RMax(RMul(Pos(a), NegP(d)), RMul(NegP(b), Pos(c)))))

Recip(x) == Iv(RDiv("1", Hi(x)), RDiv("1", Lo(x)))               \* {1/t : t in x}
DivI(x, y) == MulI(x, Recip(y))                                   \* needs ~HasZero(y)

AbsI(x) == IF RGe(Lo(x), "0") THEN Iv(Lo(x), Hi(x))               \* proper x
           ELSE IF RLe(Hi(x), "0") THEN Iv(RNeg(Hi(x)), RNeg(Lo(x)))
           ELSE Iv("0", RMax(RNeg(Lo(x)), Hi(x)))
PowI(x, n) ==                                                      \* proper x, n natural
    IF n = 0 THEN Pt("1")
    ELSE LET p == RPow(Lo(x), n) q == RPow(Hi(x), n) IN
         IF n % 2 = 1 THEN Iv(p, q)
         ELSE IF Member("0", x) THEN Iv("0", RMax(p, q))
         ELSE Iv(RMin(p, q), RMax(p, q))

JoinI(x, y) == Iv(RMin(Lo(x), Lo(y)), RMax(Hi(x), Hi(y)))
MeetI(x, y) == Iv(RMax(Lo(x), Lo(y)), RMin(Hi(x), Hi(y)))

Wid(x) == RSub(Hi(x), Lo(x))
Rad(x) == RDiv(Wid(x), "2")
Mid(x) == RDiv(RAdd(Lo(x), Hi(x)), "2")
MagI(x) == RMax(RAbs(Lo(x)), RAbs(Hi(x)))
MigI(x) == IF HasZero(x) THEN "0" ELSE RMin(RAbs(Lo(x)), RAbs(Hi(x)))

RECURSIVE SumI(_, _)
SumI(s, i) == IF i > Len(s) THEN Pt("0") ELSE AddI(s[i], SumI(s, i + 1))
=============================================================================
