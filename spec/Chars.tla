-------------------------------- MODULE Chars --------------------------------
(* Characteristics of intervals and interval arrays.                            *)
(* events:                                                                      *)
(*   char  x, prop, mod : records name |-> value, from the properties of x and   *)
(*         from the functions of the module                                     *)
(*   parts x, prop : dual, pro, opp, inv of x                                   *)
(*   nums  xs (intervals and numbers), mod                                      *)
(*   dist  x, y, order ("inf" or a number), r       compmat x, r                *)
(*   vertex x, r                                     isnan x, r                  *)
EXTENDS TraceKit, Values
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1

Khi(x) == IF RLe(RAbs(Lo(x)), RAbs(Hi(x))) THEN RDiv(Lo(x), Hi(x)) ELSE RDiv(Hi(x), Lo(x))
Def(name, x) == CASE name = "inf" -> Lo(x) [] name = "sup" -> Hi(x) [] name \in {"a", "b"} -> (IF name = "a" THEN Lo(x) ELSE Hi(x))
                  [] name = "mid" -> Mid(x) [] name = "rad" -> Rad(x) [] name = "wid" -> Wid(x)
                  [] name = "mag" -> MagI(x) [] name = "mig" -> MigI(x) [] name = "khi" -> Khi(x)
UlpsOf(name) == IF name \in {"mid", "rad", "wid", "khi"} THEN 1 ELSE 0
NumAt(v, k) == IF v.k = "num" THEN v.v ELSE v.v[k]
Range1(name, x) ==       \* beyond these the floating point result may overflow or underflow
    name \in {"inf", "sup", "a", "b", "mag", "mig"} \/ (name = "mid" /\ FiniteIv(x))
    \/ (Ordinary(x) /\ (LET d == Def(name, x) IN REq(d, "0") \/ RLe(Tiny, RAbs(d))))
Good(name, x, t) ==
    IF NanIv(x) THEN RNan(t) \/ name \in {"mag", "mig", "khi"}
    ELSE /\ Range1(name, x) => (LET d == Def(name, x) IN Within(t, d, UlpsOf(name)) \/ (name = "mid" /\ RLe(RAbs(RSub(t, d)), RPow2(-1074))))
         /\ name = "mid" /\ FiniteIv(x) => Member(t, Pro(x))
         /\ name = "mig" /\ Proper(x) => (REq(t, "0") <=> Member("0", x))
Names(e, which) == {n \in {"a", "b", "inf", "sup", "mid", "rad", "wid", "mag", "mig", "khi"} : Has(e[which], n)}
CheckAll(e, which, el, sh) ==
    UNION {LET v == e[which][n] IN
           IF v.k \notin {"num", "narr"} \/ ShapeOf(v) # sh THEN {n \o " has the wrong form"}
           ELSE Need(\A k \in DOMAIN el : Good(n, el[k], NumAt(v, k)), n) : n \in Names(e, which)}
\* mig of an improper interval is left open
CharCl(e) ==
    CheckAll(e, "prop", Elements(e.x), ShapeOf(e.x)) \cup CheckAll(e, "mod", Elements(e.x), ShapeOf(e.x))
    \cup Need(SameVal(e.x, e.x2), "ArgumentUnchanged")
NumsCl(e) == CheckAll(e, "mod", [k \in DOMAIN e.xs |-> At(e.xs[k], 1)], IF e.scalar THEN <<>> ELSE <<Len(e.xs)>>)

PartsCl(e) ==
    LET el == Elements(e.x) sh == ShapeOf(e.x)
        part(n, f(_)) == IF ~Has(e.prop, n) THEN {}
                         ELSE IF ShapeOf(e.prop[n]) # sh THEN {n \o " has the wrong shape"}
                         ELSE Need(\A k \in DOMAIN el : SameIv(At(e.prop[n], k), f(el[k])), n)
    IN part("dual", Dual) \cup part("pro", Pro) \cup part("opp", Opp) \cup part("neg", NegI)
       \cup (IF ~Has(e.prop, "inv") THEN {} ELSE
             Need(ShapeOf(e.prop["inv"]) = sh /\ \A k \in DOMAIN el : LET i == At(e.prop["inv"], k) x == Inv(el[k]) IN
                  Includes(i, x) /\ Within(Lo(i), Lo(x), 1) /\ Within(Hi(i), Hi(x), 1), "inv"))

Cheb(x, y) == RMax(RAbs(RSub(Lo(x), Lo(y))), RAbs(RSub(Hi(x), Hi(y))))
DistCl(e) ==
    LET o == Broadcast(ShapeOf(e.x), ShapeOf(e.y)) n == Size(o)
        d(k) == Cheb(BAt(e.x, k, o), BAt(e.y, k, o))
        mx == CHOOSE m \in {d(k) : k \in 1..n} : \A k \in 1..n : RLe(d(k), m)
        p == RToInt(e.order)
        s == RSum([k \in 1..n |-> RPow(d(k), p)])
    IN IF e.r.k # "num" THEN {"DistanceIsANumber"}
       ELSE IF e.order = "inf" THEN Need(Within(e.r.v, mx, 1), "Chebyshev")
       ELSE Need(RLe(RAbs(RSub(RPow(e.r.v, p), s)), RMul(s, RPow2(-40))), "Multimetric")

CompCl(e) ==
    IF e.r.k # "narr" \/ e.r.sh # e.x.sh THEN {"SameShape"}
    ELSE Need(\A k \in DOMAIN e.x.v : LET u == Unflat(k - 1, e.x.sh) x == e.x.v[k] IN
              REq(e.r.v[k], IF u[1] = u[2] THEN MigI(x) ELSE RNeg(MagI(x))), "Comparant")

\* every choice of ends exactly once: 2^n rows
VertexCl(e) ==
    LET n == Size(ShapeOf(e.x)) rows == 2 ^ n
        row(i) == [k \in 1..n |-> e.r.v[(i - 1) * n + k]]
    IN IF e.r.k # "narr" \/ e.r.sh # <<rows>> \o ShapeOf(e.x) THEN {"OneRowPerVertex"}
       ELSE Need(\A i \in 1..rows : \A k \in 1..n : REq(row(i)[k], Lo(At(e.x, k))) \/ REq(row(i)[k], Hi(At(e.x, k))), "RowsAreVertices")
            \cup Need(\A c \in [1..n -> BOOLEAN] : \E i \in 1..rows : \A k \in 1..n :
                      REq(row(i)[k], IF c[k] THEN Hi(At(e.x, k)) ELSE Lo(At(e.x, k))), "EveryVertexListed")

NanCl(e) == LET el == Elements(e.x) IN
    IF e.r.k = "bool" THEN Need(Len(el) = 1 /\ (e.r.v = NanIv(el[1])), "isnan")
    ELSE IF e.r.k # "barr" THEN {"isnan"} ELSE Need(e.r.sh = e.x.sh /\ \A k \in DOMAIN el : e.r.v[k] = NanIv(el[k]), "isnan")

Clauses(e) ==
    CASE e.op = "char" -> CharCl(e) [] e.op = "nums" -> NumsCl(e) [] e.op = "parts" -> PartsCl(e)
      [] e.op = "dist" -> DistCl(e) [] e.op = "compmat" -> CompCl(e) [] e.op = "vertex" -> VertexCl(e) [] e.op = "isnan" -> NanCl(e)
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
