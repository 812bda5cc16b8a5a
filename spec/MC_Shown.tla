------------------------------- MODULE MC_Shown -------------------------------
(* Showing keeps order, sign and class of intervals, and showing a shown number   *)
(* again changes nothing.                                                            *)
EXTENDS Shown, TLC
CONSTANTS Top, Den, N
VARIABLES x, y
\* fractions k / Den and their multiples by powers of ten
Num == {RMul(RDiv(RInt(k), RInt(Den)), Ten(p)) : k \in -Top..Top, p \in {-3, 0, 2}}
Exp(v) == IF REq(v, "0") THEN 0 ELSE CHOOSE e \in -9..9 : Exponent(v, e)
Init == x \in Num /\ y = "none"
Next == y = "none" /\ y' \in Num /\ UNCHANGED x
S(v) == Round(v, Exp(v), N)
Right == ShownAs(S(x), x, Exp(x), N)
Twice == REq(S(S(x)), S(x))
Odd == REq(S(RNeg(x)), RNeg(S(x)))
Order == y = "none" \/ (RLe(x, y) => RLe(S(x), S(y)))
\* one nearest number, or two when the number is in the middle
Unique == y = "none" \/ ~ShownAs(S(y), x, Exp(x), N) \/ REq(S(y), S(x)) \/ REq(RAdd(S(x), S(y)), RMul("2", x))
=============================================================================
