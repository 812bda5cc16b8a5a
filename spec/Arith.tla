-------------------------------- MODULE Arith --------------------------------
(* Trace specification of scalar arithmetic: histories of the evaluation       *)
(* machine (module Machine) recorded from the library.                         *)
(*   load  dst, r, pt            a register receives a constructed interval    *)
(*   add|sub|mul|div|neg|abs|pow dst, a, b (operands as the call saw them),    *)
(*         ai, bi (their registers, 0 for a literal number), n, r (the result) *)
(*   every event: regs, all registers as they read after the call              *)
(* MODE "sound" judges enclosure (C01), "tight" the width of the result (C02). *)
EXTENDS TraceKit, Machine
CONSTANT Mode
vars == <<run, l, reg, pt>>

Init == run \in DOMAIN Runs /\ l = 1 /\ reg = <<>> /\ pt = <<>>

SoundClauses(e) ==
    LET ok == e.r.k = "iv"
        def == Defined(e.op, e.a, e.b)
        x == Exact(e.op, e.a, e.b, e.n)
        moderate == e.op = "div" => (~def \/ Ordinary(Recip(e.b)))     \* divisors are no subnormal numbers
    IN  Need(ok => def, "DivisionByZeroIntervalMustRaise")
        \cup Need((~ok) => e.r.k = "err", "ResultIsAnInterval")
        \cup (IF ~def THEN {}
              ELSE IF ~moderate THEN {}
            ELSE Need((~ok) => ~Ordinary(x), "NoSpuriousError")
                   \cup Need((ok /\ FiniteIv(x)) => Includes(e.r.v, x), "Encloses"))

TightClauses(e) ==
    IF e.r.k # "iv" \/ ~Doubles(e.a) \/ ~Doubles(e.b) \/ ~Defined(e.op, e.a, e.b) THEN {}
    ELSE LET x == Exact(e.op, e.a, e.b, e.n) IN
         IF ~Ordinary(x) \/ (e.op = "pow" /\ ~Normal(x))            \* gradual underflow loses one least double, no more
            \/ (e.op = "div" /\ ~(Ordinary(Recip(e.b)) /\ Normal(Recip(e.b)))) THEN {}
         ELSE Need(Within(Lo(e.r.v), Lo(x), Ulps(e)), "LowerEndIsTight")
              \cup Need(Within(Hi(e.r.v), Hi(x), Ulps(e)), "UpperEndIsTight")

KaucherClauses(e) == JudgeOp(e)

\* what the registers must read after the event
After(e) == IF e.op = "load" THEN Append(reg, e.r.v)
            ELSE IF e.r.k = "iv" THEN [reg EXCEPT ![e.dst] = e.r.v] ELSE reg
Operands(e) ==
    Need(e.ai = 0 \/ SameIv(reg[e.ai], e.a), "OperandUnchanged")
    \cup Need(e.bi = 0 \/ SameIv(reg[e.bi], e.b), "OperandUnchanged")
Frame(e) == Need(\A i \in DOMAIN e.regs : SameIv(e.regs[i], After(e)[i]), "OtherRegistersUnchanged")

W(e, i, x) == IF i > 0 THEN pt[i] ELSE Lo(x)       \* the witness of a literal is the number
NewPt(e) ==
    IF e.op = "load" THEN Append(pt, e.pt)
    ELSE IF e.r.k # "iv" THEN pt
    ELSE LET s == W(e, e.ai, e.a) t == W(e, e.bi, e.b)
             p == IF s = "none" \/ t = "none" \/ e.forget THEN "none" ELSE Point(e.op, s, t, e.n)
         IN [pt EXCEPT ![e.dst] = IF p = "none" \/ ~RFin(p) THEN "none" ELSE p]
Witness(rg, p) == Need(\A i \in DOMAIN rg : p[i] = "none" \/ NanIv(rg[i]) \/ Member(p[i], rg[i]), "WitnessStaysInside")

Step ==
    /\ More
    /\ LET e == Ev IN
       /\ reg' = e.regs
       /\ LET np == NewPt(e)
              cl == IF e.op = "load" THEN (IF Mode = "sound" THEN Frame(e) ELSE {})
                    ELSE IF Mode = "sound"
                    THEN SoundClauses(e) \cup Operands(e) \cup Frame(e) \cup Witness(e.regs, np)
                    ELSE IF Mode = "kaucher" THEN KaucherClauses(e) \cup Operands(e) \cup Frame(e)
                    ELSE TightClauses(e)
          IN /\ Report(cl)
             /\ pt' = IF Mode = "sound"
                      THEN [i \in DOMAIN np |-> IF np[i] = "none" \/ Member(np[i], e.regs[i]) THEN np[i] ELSE "none"]
                      ELSE np
    /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
