------------------------------ MODULE ArrayOps ------------------------------
(* Array operations as elementwise scalar operations under NumPy's shape rules. *)
(* event: op, x, y (operands), n, sh (arguments), r, x2, y2 (operands after)     *)
EXTENDS TraceKit, Values
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1

Bin == {"add", "sub", "mul", "div"}
Un == {"neg", "abs", "pow"}
Out(e) == Broadcast(ShapeOf(e.x), ShapeOf(e.y))
Judge1(op, a, b, n, r) == JudgeOp([op |-> op, a |-> a, b |-> b, n |-> n, r |-> [k |-> "iv", v |-> r]])

BinCl(e) ==
    IF ~Compatible(ShapeOf(e.x), ShapeOf(e.y)) THEN Need(e.r.k = "err", "IncompatibleShapesMustRaise")
    ELSE LET o == Out(e) N == Size(o) IN
         IF e.op = "div" /\ \E k \in 1..N : HasZero(BAt(e.y, k, o)) THEN Need(e.r.k = "err", "DivisionByZeroIntervalMustRaise")
         ELSE IF e.r.k # (IF o = <<>> THEN "iv" ELSE "arr") THEN {"ResultKind " \o e.r.k}
         ELSE IF ShapeOf(e.r) # o THEN {"ResultShape"}
         ELSE UNION {Judge1(e.op, BAt(e.x, k, o), BAt(e.y, k, o), 0, At(e.r, k)) : k \in 1..N}
UnCl(e) ==
    IF e.r.k # "arr" THEN {"ResultKind " \o e.r.k} ELSE IF e.r.sh # e.x.sh THEN {"ResultShape"}
    ELSE UNION {Judge1(e.op, e.x.v[k], e.x.v[k], e.n, e.r.v[k]) : k \in DOMAIN e.x.v}

\* inner products: outward around the exact sum of products, and no wider than a few ulps per term
Product(ps, r) ==        \* ps: the sequence of pairs
    LET t == [i \in DOMAIN ps |-> MulI(ps[i][1], ps[i][2])]
        lo == RSum([i \in DOMAIN t |-> Lo(t[i])]) hi == RSum([i \in DOMAIN t |-> Hi(t[i])])
        size == RSum([i \in DOMAIN t |-> MagI(t[i])])
        slack == RMul(size, RDiv(RInt(4 * Len(ps)), RPow2(52)))
    IN Need(RLe(Lo(r), lo) /\ RLe(hi, Hi(r)), "EnclosesSumOfProducts")
       \cup Need(RLe(RSub(lo, slack), Lo(r)) /\ RLe(Hi(r), RAdd(hi, slack)), "TightSumOfProducts")
\* numpy's rule for stacks: the last two axes are the matrices, the leading ones broadcast;
\* a vector is a row on the left, a column on the right, and its axis is dropped from the result
MatCl(e) ==
    LET s == e.x.sh t == e.y.sh
        a == IF Len(s) = 1 THEN <<1>> \o s ELSE s
        b == IF Len(t) = 1 THEN t \o <<1>> ELSE t
        al == SubSeq(a, 1, Len(a) - 2) bl == SubSeq(b, 1, Len(b) - 2)
        rows == a[Len(a) - 1] n == a[Len(a)] cols == b[Len(b)]
    IN IF n # b[Len(b) - 1] \/ ~Compatible(al, bl) THEN Need(e.r.k = "err", "IncompatibleShapesMustRaise")
       ELSE LET lead == Broadcast(al, bl)
                o == lead \o (IF Len(s) = 1 THEN <<>> ELSE <<rows>>) \o (IF Len(t) = 1 THEN <<>> ELSE <<cols>>)
            IN IF e.r.k # (IF o = <<>> THEN "iv" ELSE "arr") THEN {"ResultKind " \o e.r.k}
               ELSE IF ShapeOf(e.r) # o THEN {"ResultShape"}
               ELSE UNION {LET pa == Source(k, lead, al) - 1 pb == Source(k, lead, bl) - 1 IN
                           Product([q \in 1..n |-> <<At(e.x, pa * rows * n + (i - 1) * n + q), At(e.y, pb * n * cols + (q - 1) * cols + j)>>],
                                   At(e.r, (k - 1) * rows * cols + (i - 1) * cols + j))
                           : k \in 1..Size(lead), i \in 1..rows, j \in 1..cols}

\* rearrangements: element k of the result is element src(k) of x, or zero when src(k) = 0
Arranged(e, sh, src(_)) ==
    IF e.r.k # "arr" THEN {"ResultKind " \o e.r.k} ELSE IF e.r.sh # sh THEN {"ResultShape"}
    ELSE Need(\A k \in 1..Size(sh) : SameIv(e.r.v[k], IF src(k) = 0 THEN IvOf("0") ELSE At(e.x, src(k))), "Elements")
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Transpose(e) == LET s == e.x.sh IN Arranged(e, Rev(s), LAMBDA k : 1 + Flat(Rev(Unflat(k - 1, Rev(s))), s))
DiagCl(e) ==
    LET s == e.x.sh q == e.n IN
    IF Len(s) = 1
    THEN LET n == s[1] + (IF q < 0 THEN -q ELSE q)
             src(k) == LET u == Unflat(k - 1, <<n, n>>) IN
                       IF u[2] - u[1] = q THEN 1 + (IF q < 0 THEN u[2] ELSE u[1]) ELSE 0
         IN Arranged(e, <<n, n>>, src)
    ELSE LET len == Cardinality({i \in 0..(s[1] - 1) : i + q \in 0..(s[2] - 1)})
             r0 == IF q < 0 THEN -q ELSE 0 c0 == IF q < 0 THEN 0 ELSE q
         IN Arranged(e, <<len>>, LAMBDA k : 1 + Flat(<<r0 + k - 1, c0 + k - 1>>, s))
Clauses(e) ==
    (CASE e.op \in Bin -> BinCl(e) [] e.op \in Un -> UnCl(e) [] e.op = "matmul" -> MatCl(e)
       [] e.op = "T" -> Transpose(e)
       [] e.op = "reshape" -> IF Size(e.sh) # Size(e.x.sh) THEN Need(e.r.k = "err", "MustRaise") ELSE Arranged(e, e.sh, LAMBDA k : k)
       [] e.op = "diag" -> DiagCl(e)
       [] e.op = "sum" -> IF e.r.k # "iv" THEN {"ResultKind " \o e.r.k}
                          ELSE Product([k \in DOMAIN e.x.v |-> <<e.x.v[k], IvOf("1")>>], e.r.v)
       [] e.op = "reversed" -> Arranged(e, e.x.sh, LAMBDA k : LET u == Unflat(k - 1, e.x.sh) IN
                                       1 + Flat([u EXCEPT ![1] = e.x.sh[1] - 1 - u[1]], e.x.sh)))
    \cup Need(SameVal(e.x, e.x2) /\ SameVal(e.y, e.y2), "OperandsUnchanged")
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
