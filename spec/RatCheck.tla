------------------------------ MODULE RatCheck ------------------------------
(* The Java-evaluated operators of Rat against pure TLA+ integer definitions, *)
(* exhaustively over small fractions: nothing else is taken on trust there.   *)
EXTENDS Integers, Sequences, TLC, Rat
CONSTANTS N, D
VARIABLES a, b, c, d          \* the fractions a/b and c/d
vars == <<a, b, c, d>>
F(n, m) == RDiv(RInt(n), RInt(m))
x == F(a, b)
y == F(c, d)
Init == a \in -N..N /\ b \in 1..D /\ c \in -N..N /\ d \in 1..D
Next == UNCHANGED vars
IsQ(r, n, m) == REq(r, F(n, m)) /\ REq(RMul(r, RInt(m)), RInt(n)) /\ r = F(n, m)
Abs(i) == IF i < 0 THEN -i ELSE i
Sgn(i) == IF i < 0 THEN -1 ELSE IF i = 0 THEN 0 ELSE 1
FloorD(n, m) == n \div m                    \* TLA+ division of integers is floor for m > 0
RECURSIVE IPow(_, _)
IPow(n, k) == IF k = 0 THEN 1 ELSE n * IPow(n, k - 1)
Field ==
    /\ IsQ(RAdd(x, y), a * d + c * b, b * d)
    /\ IsQ(RSub(x, y), a * d - c * b, b * d)
    /\ IsQ(RMul(x, y), a * c, b * d)
    /\ IF c = 0 THEN RNan(RDiv(x, y)) ELSE IsQ(RDiv(x, y), a * d * Sgn(c), b * Abs(c))
    /\ IsQ(RNeg(x), -a, b) /\ IsQ(RAbs(x), Abs(a), b)
    /\ \A k \in 0..4 : IsQ(RPow(x, k), IPow(a, k), IPow(b, k))
    /\ IsQ(RSum(<<x, y, x>>), 2 * a * d + c * b, b * d)
    /\ IsQ(RDot(<<x, y>>, <<y, x>>), 2 * a * c, b * d)
Order ==
    /\ RLt(x, y) <=> a * d < c * b
    /\ RLe(x, y) <=> a * d <= c * b
    /\ REq(x, y) <=> a * d = c * b
    /\ (x = y) <=> REq(x, y)
    /\ RMin(x, y) = IF a * d <= c * b THEN x ELSE y
    /\ RMax(x, y) = IF a * d >= c * b THEN x ELSE y
    /\ RSgn(x) = Sgn(a)
    /\ RFin(x) /\ ~RNan(x)
Whole ==
    /\ IsQ(RFloor(x), FloorD(a, b), 1)
    /\ IsQ(RCeil(x), -FloorD(-a, b), 1)
    /\ RIsInt(x) <=> a % b = 0
    /\ RToInt(x) = Sgn(a) * (Abs(a) \div b)
    /\ (a # 0) => LET e == RLog2(x) IN RLe(RPow2(e), RAbs(x)) /\ RLt(RAbs(x), RPow2(e + 1))
    /\ \A e \in -2..2 :
         /\ RIsInt(RDiv(RGridDn(x, e), RPow2(e))) /\ RIsInt(RDiv(RGridUp(x, e), RPow2(e)))
         /\ RLe(RGridDn(x, e), x) /\ RLt(RSub(x, RGridDn(x, e)), RPow2(e))
         /\ RLe(x, RGridUp(x, e)) /\ RLt(RSub(RGridUp(x, e), x), RPow2(e))
    /\ RPow2(3) = "8" /\ RPow2(-2) = "1/4"
\* binary64: 53 significant bits
DyadicOf53(r) == r = "0" \/ RIsInt(RDiv(r, RPow2(RLog2(r) - 52)))
Float ==
    /\ DyadicOf53(F64Dn(x)) /\ DyadicOf53(F64Up(x)) /\ DyadicOf53(F64Nr(x))
    /\ RLe(F64Dn(x), x) /\ RLe(x, F64Up(x))
    /\ (DyadicOf53(x)) => F64Dn(x) = x /\ F64Up(x) = x /\ F64Nr(x) = x
    /\ (~DyadicOf53(x)) =>
         /\ RSub(F64Up(x), F64Dn(x)) = RPow2(RLog2(x) - 52)
         /\ F64Nr(x) \in {F64Dn(x), F64Up(x)}
         /\ RLe(RAbs(RSub(F64Nr(x), x)), RPow2(RLog2(x) - 53))
    /\ (a # 0) => /\ RLe(RDn(x, 5), x) /\ RLe(x, RUp(x, 5))
                  /\ RLe(RSub(RUp(x, 5), RDn(x, 5)), RPow2(RLog2(x) - 4))
                  /\ RUlp(x) = RPow2(RLog2(x) - 52)
Infinite ==
    /\ RLt(x, "inf") /\ RLt("-inf", x) /\ ~RFin("inf") /\ ~RFin("nan") /\ RNan("nan")
    /\ RAdd(x, "inf") = "inf" /\ RSub(x, "inf") = "-inf" /\ RNan(RSub("inf", "inf"))
    /\ ~RLe("nan", x) /\ ~RLt("nan", x) /\ ~REq("nan", "nan") /\ RNan(RAdd("nan", x))
    /\ RMul("inf", x) = (IF a > 0 THEN "inf" ELSE IF a < 0 THEN "-inf" ELSE "0")
    /\ RDiv(x, "inf") = "0" /\ RNeg("inf") = "-inf"
=============================================================================
