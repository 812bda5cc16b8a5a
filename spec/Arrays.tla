------------------------------- MODULE Arrays -------------------------------
(* Arrays as values: indexing, assignment, deletion, rearrangement.            *)
(* An array is [k "arr", sh shape, v flat sequence of intervals] (Values).      *)
(* A key is a sequence of axis selectors, one for each leading axis:            *)
(*   [t "i", i n]              an index, negative ones from the end              *)
(*   [t "s", b, e, st]         slice(b, e, st); b and e are <<>> or <<number>>    *)
(*   [t "l", l indices]        a list of indices                                 *)
(*   [t "m", l booleans]       a mask                                            *)
EXTENDS Values

LOCAL Least(a, b) == IF a <= b THEN a ELSE b
LOCAL Most(a, b) == IF a >= b THEN a ELSE b
Arr(sh, v) == [k |-> "arr", sh |-> sh, v |-> v]
Full == [t |-> "s", b |-> <<>>, e |-> <<>>, st |-> 1]
IsFull(s) == s.t = "s" /\ s.b = <<>> /\ s.e = <<>> /\ s.st = 1
Wrap(i, n) == IF i < 0 THEN i + n ELSE i

\* positions (from 0) a slice selects on an axis of length n
SliceSel(s, n) ==
    LET lower == IF s.st > 0 THEN 0 ELSE -1
        upper == IF s.st > 0 THEN n ELSE n - 1
        clip(x) == IF x < 0 THEN Most(x + n, lower) ELSE Least(x, upper)
        b == IF s.b = <<>> THEN (IF s.st > 0 THEN lower ELSE upper) ELSE clip(s.b[1])
        e == IF s.e = <<>> THEN (IF s.st > 0 THEN upper ELSE lower) ELSE clip(s.e[1])
        len == IF s.st > 0 THEN (IF e > b THEN (e - b - 1) \div s.st + 1 ELSE 0)
               ELSE (IF e < b THEN (b - e - 1) \div (-s.st) + 1 ELSE 0)
    IN [k \in 1..len |-> b + (k - 1) * s.st]
RECURSIVE MaskSel(_, _)
MaskSel(m, i) == IF i > Len(m) THEN <<>> ELSE (IF m[i] THEN <<i - 1>> ELSE <<>>) \o MaskSel(m, i + 1)
Sel(s, n) == CASE s.t = "i" -> <<Wrap(s.i, n)>> [] s.t = "s" -> SliceSel(s, n)
               [] s.t = "l" -> [k \in DOMAIN s.l |-> Wrap(s.l[k], n)] [] s.t = "m" -> MaskSel(s.l, 1)
SelOk(s, n) == CASE s.t = "i" -> s.i >= -n /\ s.i < n [] s.t = "s" -> s.st # 0
                 [] s.t = "l" -> \A k \in DOMAIN s.l : s.l[k] >= -n /\ s.l[k] < n
                 [] s.t = "m" -> Len(s.l) = n
KeyOk(key, sh) == Len(key) <= Len(sh) /\ \A i \in DOMAIN key : SelOk(key[i], sh[i])
Sels(key, sh) == [i \in DOMAIN sh |-> Sel(IF i <= Len(key) THEN key[i] ELSE Full, sh[i])]
\* flat positions (from 1) of the selected elements, in order
Positions(key, sh) ==
    LET s == Sels(key, sh) lens == [i \in DOMAIN sh |-> Len(s[i])] IN
    [k \in 1..Size(lens) |-> LET u == Unflat(k - 1, lens) IN 1 + Flat([i \in DOMAIN sh |-> s[i][u[i] + 1]], sh)]
RECURSIVE Kept(_, _, _)
Kept(key, lens, i) == IF i > Len(lens) THEN <<>>
                      ELSE (IF i <= Len(key) /\ key[i].t = "i" THEN <<>> ELSE <<lens[i]>>) \o Kept(key, lens, i + 1)
OutShape(key, sh) == LET s == Sels(key, sh) IN Kept(key, [i \in DOMAIN sh |-> Len(s[i])], 1)

GetV(x, key) == LET p == Positions(key, x.sh) o == OutShape(key, x.sh) IN
                IF o = <<>> THEN [k |-> "iv", v |-> x.v[p[1]]] ELSE Arr(o, [i \in DOMAIN p |-> x.v[p[i]]])
\* value broadcast onto the selection
SetOk(x, key, val) == KeyOk(key, x.sh) /\ (LET o == OutShape(key, x.sh) s == ShapeOf(val) IN
                      Len(s) <= Len(o) /\ Compatible(s, o) /\ Broadcast(s, o) = o)
SetV(x, key, val) ==
    LET p == Positions(key, x.sh) o == OutShape(key, x.sh) IN
    Arr(x.sh, [i \in DOMAIN x.v |-> IF \E k \in DOMAIN p : p[k] = i
                                    THEN BAt(val, CHOOSE k \in DOMAIN p : p[k] = i, o) ELSE x.v[i]])
\* deletion along one axis
DelAxis(key) == LET c == {i \in DOMAIN key : ~IsFull(key[i])} IN
                IF Len(key) = 1 THEN 1 ELSE IF Cardinality(c) = 1 THEN CHOOSE i \in c : TRUE ELSE 0
DelOk(x, key) == DelAxis(key) # 0 /\ KeyOk(key, x.sh)
DelV(x, key) ==
    LET ax == DelAxis(key)
        gone == {Sel(key[ax], x.sh[ax])[k] : k \in DOMAIN Sel(key[ax], x.sh[ax])}
        mask == [t |-> "m", l |-> [i \in 1..x.sh[ax] |-> (i - 1) \notin gone]]
    IN GetV(x, [i \in 1..ax |-> IF i = ax THEN mask ELSE Full])

RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
TransV(x) == LET t == RevSeq(x.sh) IN
             Arr(t, [k \in 1..Size(t) |-> x.v[1 + Flat(RevSeq(Unflat(k - 1, t)), x.sh)]])
ReshapeV(x, sh) == Arr(sh, x.v)
ReverseV(x) == GetV(x, <<[t |-> "s", b |-> <<>>, e |-> <<>>, st |-> -1]>>)
WellFormed(x) == x.k = "arr" /\ Len(x.v) = Size(x.sh)
=============================================================================
