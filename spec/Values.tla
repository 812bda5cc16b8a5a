------------------------------- MODULE Values -------------------------------
(* What the library's calls take and return, as records:                      *)
(*   [k "iv", v <<lo, hi, class>>]   [k "num", v number]   [k "bool", v b]     *)
(*   [k "arr", sh shape, v intervals]  [k "narr", sh, v numbers]               *)
(*   [k "barr", sh, v booleans]   [k "err", t type, m text]                    *)
(* arrays are flat, in row-major order; indices inside this module count       *)
(* from 0, sequences from 1.                                                   *)
EXTENDS Ops

IsArr(x) == x.k \in {"arr", "narr", "barr"}
ShapeOf(x) == IF IsArr(x) THEN x.sh ELSE <<>>
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 1 ELSE Head(s) * Size(Tail(s))
IvOf(n) == <<n, n, "N">>
\* k-th element (from 1) as an interval
At(x, k) == CASE x.k = "iv" -> x.v [] x.k = "num" -> IvOf(x.v) [] x.k = "arr" -> x.v[k] [] x.k = "narr" -> IvOf(x.v[k])
Elements(x) == [k \in 1..Size(ShapeOf(x)) |-> At(x, k)]

\* multi-index of the flat position k (from 0)
RECURSIVE Unflat(_, _)
Unflat(k, s) == IF s = <<>> THEN <<>>
                ELSE LET n == Size(Tail(s)) IN <<k \div n>> \o Unflat(k % n, Tail(s))
RECURSIVE Flat(_, _)
Flat(idx, s) == IF s = <<>> THEN 0 ELSE Head(idx) * Size(Tail(s)) + Flat(Tail(idx), Tail(s))

\* broadcasting
LOCAL MaxN(a, b) == IF a >= b THEN a ELSE b
PadTo(s, n) == [i \in 1..n |-> IF i <= n - Len(s) THEN 1 ELSE s[i - (n - Len(s))]]
Compatible(s, t) == LET n == MaxN(Len(s), Len(t)) p == PadTo(s, n) q == PadTo(t, n) IN
                    \A i \in 1..n : p[i] = q[i] \/ p[i] = 1 \/ q[i] = 1
Broadcast(s, t) == LET n == MaxN(Len(s), Len(t)) p == PadTo(s, n) q == PadTo(t, n) IN
                   [i \in 1..n |-> IF p[i] = 1 THEN q[i] ELSE p[i]]
\* position (from 1) in an array of shape s of the k-th element (from 1) of the broadcast shape
Source(k, out, s) == LET u == Unflat(k - 1, out) p == PadTo(s, Len(out)) IN
                     1 + Flat([i \in 1..Len(s) |-> IF s[i] = 1 THEN 0 ELSE u[i + Len(out) - Len(s)]], s)
BAt(x, k, out) == IF IsArr(x) THEN At(x, Source(k, out, x.sh)) ELSE At(x, 1)

\* two observations of the same value
SameVal(x, y) ==
    /\ x.k = y.k
    /\ CASE x.k = "iv" -> SameIv(x.v, y.v) [] x.k = "num" -> SameNum(x.v, y.v)
         [] x.k = "arr" -> x.sh = y.sh /\ \A i \in DOMAIN x.v : SameIv(x.v[i], y.v[i])
         [] x.k = "narr" -> x.sh = y.sh /\ \A i \in DOMAIN x.v : SameNum(x.v[i], y.v[i])
         [] OTHER -> x = y

\* ---- order and inclusion ------------------------------------------------------
Cmp(op, x, y) ==
    CASE op = "lt" -> RLt(Lo(x), Lo(y)) /\ RLt(Hi(x), Hi(y)) [] op = "le" -> RLe(Lo(x), Lo(y)) /\ RLe(Hi(x), Hi(y))
      [] op = "gt" -> RLt(Lo(y), Lo(x)) /\ RLt(Hi(y), Hi(x)) [] op = "ge" -> RLe(Lo(y), Lo(x)) /\ RLe(Hi(y), Hi(x))
      [] op = "eq" -> REq(Lo(x), Lo(y)) /\ REq(Hi(x), Hi(y)) [] op = "ne" -> ~(REq(Lo(x), Lo(y)) /\ REq(Hi(x), Hi(y)))
      [] op \in {"contain", "subset"} -> Includes(y, x)
      [] op \in {"supercontain", "superset"} -> Includes(x, y)
      [] op = "psubset" -> RLt(Lo(y), Lo(x)) /\ RLt(Hi(x), Hi(y))
      [] op = "psuperset" -> RLt(Lo(x), Lo(y)) /\ RLt(Hi(y), Hi(x))
=============================================================================
