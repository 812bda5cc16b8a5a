--------------------------------- MODULE Ops ---------------------------------
(* The operations of the library by name: their exact results, where they are  *)
(* defined, and how far a floating point result may lie from the exact one.    *)
EXTENDS IA

\* One point operation; total ("nan" when undefined).
Point(op, s, t, n) ==
    CASE op = "add" -> RAdd(s, t) [] op = "sub" -> RSub(s, t) [] op = "mul" -> RMul(s, t)
      [] op = "div" -> RDiv(s, t) [] op = "neg" -> RNeg(s) [] op = "abs" -> RAbs(s)
      [] op = "pow" -> RPow(s, n) [] OTHER -> "nan"

\* The exact range of the same operation over intervals.
Exact(op, x, y, n) ==
    CASE op = "add" -> AddI(x, y) [] op = "sub" -> SubI(x, y) [] op = "mul" -> MulI(x, y)
      [] op = "div" -> DivI(x, y) [] op = "neg" -> NegI(x) [] op = "abs" -> AbsI(x)
      [] op = "pow" -> PowI(x, n) [] OTHER -> Pt("nan")

Defined(op, x, y) == op # "div" \/ ~HasZero(y)

\* What a machine with finite precision may store: any interval that includes the exact one.
Allowed(op, x, y, n, r) == Includes(r, Exact(op, x, y, n))

\* ---- numbers away from the ends of the range of doubles ----
Huge == RPow2(1000)
Tiny == RPow2(-1000)
Ordinary(v) == RLe(RAbs(Lo(v)), Huge) /\ RLe(RAbs(Hi(v)), Huge)
Normal(v) == \A t \in {Lo(v), Hi(v)} : REq(t, "0") \/ RLe(Tiny, RAbs(t))

\* ulps of slack per bound that each operation may lose
Slack(op) == CASE op \in {"neg", "abs"} -> 0 [] op \in {"add", "sub"} -> 1 [] op = "mul" -> 1
               [] op = "div" -> 4 [] op = "pow" -> 8 [] OTHER -> 0
Within(t, e, k) == RLe(RAbs(RSub(t, e)), RMul(RInt(k), RUlp(RMax(RAbs(t), RAbs(e)))))
Doubles(v) == REq(F64Nr(Lo(v)), Lo(v)) /\ REq(F64Nr(Hi(v)), Hi(v))   \* larger ints are rounded on entry
\* Kaucher arithmetic: outward rounded around the exact result, and tight
PowK(x, n) == IF Proper(x) THEN PowI(x, n)
              ELSE IF n % 2 = 1 \/ RGe(Hi(x), "0") THEN Iv(RPow(Lo(x), n), RPow(Hi(x), n))
              ELSE Dual(PowI(Pro(x), n))
ExactK(e) == CASE e.op = "dual" -> Dual(e.a) [] e.op = "pro" -> Pro(e.a) [] e.op = "opp" -> Opp(e.a)
               [] e.op = "inv" -> Inv(e.a) [] e.op = "xopp" -> Pt("0") [] e.op = "xinv" -> Pt("1")
               [] e.op = "pow" -> PowK(e.a, e.n)
               [] OTHER -> Exact(e.op, e.a, e.b, e.n)
DefinedK(e) == /\ Defined(e.op, e.a, e.b)
               /\ e.op \in {"inv", "xinv"} => (~HasZero(e.a) /\ Ordinary(Recip(e.a)) /\ Normal(Recip(e.a)))
               \* even powers of improper negative intervals: see DESIGN.md
               /\ e.op = "pow" => (Proper(e.a) \/ e.n % 2 = 1 \/ RLe("0", Hi(e.a)) \/ RLt("0", Lo(e.a)))
SlackK(op) == CASE op \in {"neg", "dual", "pro", "opp", "xopp"} -> 0 [] op \in {"add", "sub", "mul", "inv"} -> 1
                [] op \in {"div", "xinv"} -> 4 [] op = "pow" -> 8 [] OTHER -> 0

\* a product of many factors
UlpsK(e) == IF e.op = "pow" /\ e.n > 4 THEN 2 * e.n ELSE SlackK(e.op)
Ulps(e) == IF e.op = "pow" /\ e.n > 4 THEN 2 * e.n ELSE Slack(e.op)

\* One operation on two (or one) intervals, judged: the names of the clauses that the result breaks.
\* r is a record [k |-> "iv", v |-> interval] or [k |-> "err", ...]
JudgeOp(e) ==
    LET ok == e.r.k = "iv"
        x == ExactK(e)
    IN  IF e.op = "div" /\ HasZero(e.b) THEN Need(e.r.k = "err", "DivisionByZeroIntervalMustRaise")
        ELSE IF ~DefinedK(e) \/ (e.op = "div" /\ ~Ordinary(Recip(e.b))) \/ ~Ordinary(x) THEN {}
        ELSE Need(ok, "ResultIsAnInterval")
             \cup (IF ~ok THEN {} ELSE
                    Need(Includes(e.r.v, x), "RoundedOutward")
                    \cup Need((Normal(x) /\ Doubles(e.a) /\ Doubles(e.b)) => Within(Lo(e.r.v), Lo(x), UlpsK(e)), "LowerEndIsTight")
                    \cup Need((Normal(x) /\ Doubles(e.a) /\ Doubles(e.b)) => Within(Hi(e.r.v), Hi(x), UlpsK(e)), "UpperEndIsTight"))
=============================================================================
