-------------------------------- MODULE Shown --------------------------------
(* Numbers as text with Digits significant digits.  Texts are numbers here (the  *)
(* reader of the text gives its exact value); e is the decimal exponent of the    *)
(* number, 10^e <= |x| < 10^(e+1).                                                  *)
EXTENDS Ops
Digits == 6
Ten(e) == IF e >= 0 THEN RPow("10", e) ELSE RDiv("1", RPow("10", -e))
Exponent(x, e) == ~RFin(x) \/ REq(x, "0") \/ (RLe(Ten(e), RAbs(x)) /\ RLt(RAbs(x), Ten(e + 1)))
\* unit of the last digit
Unit(e, n) == Ten(e - n + 1)
\* t is a nearest number with n digits
ShownAs(t, x, e, n) ==
    IF ~RFin(x) THEN SameNum(t, x)
    ELSE IF REq(x, "0") THEN REq(t, "0")
    ELSE /\ RFin(t)
         /\ RIsInt(RDiv(t, Unit(e, n)))
         /\ RLe(RMul("2", RAbs(RSub(t, x))), Unit(e, n))
\* an algorithm that shows
Round(x, e, n) == IF REq(x, "0") THEN "0"
                  ELSE LET u == Unit(e, n) q == RDiv(x, u) f == RFloor(q) d == RSub(q, f) IN
                       RMul(u, IF RLt(RMul("2", d), "1") \/ (REq(RMul("2", d), "1") /\ REven(f)) THEN f ELSE RAdd(f, "1"))
=============================================================================
