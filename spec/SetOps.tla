------------------------------- MODULE SetOps -------------------------------
(* Comparison, membership, inclusion and intersection.                        *)
(* event: op, x, y (operands before the call), r, x2, y2 (operands after)      *)
EXTENDS TraceKit, Values
vars == <<run, l>>
Init == run \in DOMAIN Runs /\ l = 1

Orders == {"lt", "le", "gt", "ge", "eq", "ne"}
All == {"subset", "superset", "psubset", "psuperset"}
Out(e) == Broadcast(ShapeOf(e.x), ShapeOf(e.y))
Expected(e, k) == Cmp(e.op, BAt(e.x, k, Out(e)), BAt(e.y, k, Out(e)))

Elementwise(e) ==
    LET n == Size(Out(e)) IN
    IF e.r.k = "bool" THEN Need(Out(e) = <<>>, "SameShape") \cup Need(e.r.v = Expected(e, 1), "Answer")
    ELSE IF e.r.k # "barr" THEN {"AnswersAreBooleans"}
    ELSE IF e.r.sh # Out(e) THEN {"SameShape"}
    ELSE Need(\A k \in 1..n : e.r.v[k] = Expected(e, k), "Answer")

InCl(e) ==      \* x in y
    LET has(c) == CASE e.x.k = "num" -> Member(e.x.v, c) [] e.x.k = "iv" -> Includes(c, e.x.v)
    IN IF e.r.k # "bool" THEN {"AnswersAreBooleans"}
       ELSE Need(e.r.v = (\E k \in 1..Size(ShapeOf(e.y)) : has(At(e.y, k))), "Answer")

\* gaps up to 10^-15 count as touching
Slit == "1/1000000000000000"
MeetCl(x, y, r) ==
    LET m == MeetI(x, y) IN
    IF ~RFin(Lo(m)) /\ REq(Lo(m), Hi(m)) THEN {}        \* no real point
    ELSE IF Proper(m) THEN Need(SameIv(r, m), "CommonPart")
    ELSE IF RLt(RMul(Slit, "2"), RSub(Lo(m), Hi(m))) THEN Need(NanIv(r), "DisjointGivesNan")
    ELSE {}
InterCl(e) ==
    LET o == Out(e) IN
    IF o = <<>> THEN (IF e.r.k # "iv" THEN {"ResultIsAnInterval"} ELSE MeetCl(At(e.x, 1), At(e.y, 1), e.r.v))
    ELSE IF e.r.k # "arr" THEN {"ResultIsAnArray"}
    ELSE IF e.r.sh # o THEN {"SameShape"}
    ELSE UNION {MeetCl(BAt(e.x, k, o), BAt(e.y, k, o), e.r.v[k]) : k \in 1..Size(o)}

Clauses(e) ==
    (CASE e.r.k = "err" -> {"Raised " \o e.r.t}
       [] e.op \in Orders \cup {"contain", "supercontain"} -> Elementwise(e)
       [] e.op \in All -> IF e.r.k # "bool" THEN {"AnswersAreBooleans"}
                          ELSE Need(e.r.v = (\A k \in 1..Size(Out(e)) : Expected(e, k)), "Answer")
       [] e.op = "in" -> InCl(e)
       [] e.op = "meet" -> InterCl(e))
    \cup Need(SameVal(e.x, e.x2) /\ SameVal(e.y, e.y2), "OperandsUnchanged")
Step == More /\ Report(Clauses(Ev)) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
