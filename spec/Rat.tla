-------------------------------- MODULE Rat --------------------------------
(* Exact extended-rational arithmetic.  A number is a canonical string:      *)
(* "n" or "n/d" in lowest terms with d > 1, or "inf", "-inf", "nan".         *)
(* TLC evaluates the operators with java/Rat.java (BigInteger), as it does   *)
(* those of Integers; the bodies below only fix names and arities.           *)
(* RatCheck.tla states the laws and has TLC compare them with pure TLA+      *)
(* integer definitions.  Comparisons with "nan" are FALSE, arithmetic with   *)
(* "nan" or division by zero gives "nan": every operator is total.           *)
EXTENDS Integers, Sequences
LOCAL Undefined == CHOOSE x : TRUE

RInt(i) == Undefined        \* TLA+ integer (or number) -> number
RAdd(a, b) == Undefined
RSub(a, b) == Undefined
RMul(a, b) == Undefined     \* 0 * inf = 0
RDiv(a, b) == Undefined
RNeg(a) == Undefined
RAbs(a) == Undefined
RMin(a, b) == Undefined
RMax(a, b) == Undefined
RLt(a, b) == Undefined
RLe(a, b) == Undefined
REq(a, b) == Undefined
RFin(a) == Undefined        \* a is a real number
RNan(a) == Undefined
RSgn(a) == Undefined        \* -1, 0, 1 as a TLA+ integer
RPow(a, k) == Undefined     \* k a TLA+ natural
RFloor(a) == Undefined
RCeil(a) == Undefined
RIsInt(a) == Undefined
RToInt(a) == Undefined      \* truncation to a TLA+ integer
REven(a) == Undefined
RLog2(a) == Undefined       \* floor(log2 |a|) as a TLA+ integer
RPow2(e) == Undefined       \* 2^e, e a TLA+ integer
F64Dn(a) == Undefined       \* largest binary64 number <= a  (or -inf)
F64Up(a) == Undefined       \* least binary64 number >= a    (or inf)
F64Nr(a) == Undefined       \* nearest binary64, ties to even
RDn(a, n) == Undefined      \* round down to n significant bits
RUp(a, n) == Undefined
RGridDn(a, e) == Undefined  \* round down to a multiple of 2^e
RGridUp(a, e) == Undefined
RUlp(a) == Undefined        \* spacing of binary64 numbers at |a|
RSum(s) == Undefined        \* sum of a sequence
RDot(s, t) == Undefined     \* dot product of two sequences

RGe(a, b) == RLe(b, a)
RGt(a, b) == RLt(b, a)
=============================================================================
