------------------------------- MODULE FitTrace -------------------------------
(* The life of regression models.  The machine keeps for every model object what its  *)
(* last successful fit found; predictions are functions of that.  memo: what every    *)
(* distinct fit found the first time it was asked for.                                *)
(* retry: from a kink of the functional the optimizer may give up after as many          *)
(* iterations without progress as its own rule says; then (and only then) the driver     *)
(* tried once more from the point found, with a longer rule.                             *)
EXTENDS TraceKit, Fit
VARIABLES models, memo
vars == <<run, l, models, memo>>
Init == run \in DOMAIN Runs /\ l = 1 /\ models = <<>> /\ memo = <<>>
Blank(e) == [cls |-> e.cls, basis |-> e.basis, alpha |-> e.alpha, beta |-> e.beta, st |-> "unfit", x |-> <<>>, order |-> <<>>, bias |-> FALSE]
LOCAL FitShape(r) == r.k = "seq" /\ Len(r.v) = 5 /\ r.v[1].k = "narr" /\ \A i \in 2..5 : r.v[i].k = "num"
LOCAL MaxOf(S) == CHOOSE m \in S : \A y \in S : RLe(y, m)
LOCAL Off(mo) == IF mo.bias THEN 1 ELSE 0
Described(e) == [models[e.m] EXCEPT !.order = e.order, !.bias = e.bias]

FitClauses(e) ==
    LET mo == Described(e)
        r == e.res
        n == NCoef(mo, e.A)
    IN IF ~FitShape(r) THEN {"FitFails"}
       ELSE IF r.v[1].sh # <<n>> \/ \E j \in DOMAIN r.v[1].v : ~RFin(r.v[1].v[j]) THEN {"OneNumberPerCoefficient"}
       ELSE LET x == r.v[1].v
                val == r.v[2].v
                nit == RToInt(r.v[3].v)
                ncalls == RToInt(r.v[4].v)
                code == RToInt(r.v[5].v)
                w == Smoothed(mo.alpha, mo.beta, e.w)
                Mag(y) == LET s == TLCEval([i \in 1..NRows(e.A) |-> RMul(w[i], RAdd(MagI(Rhs(e.b, i)), RowScale(mo, e.A, y, i)))])
                          IN IF e.norm = "l1" THEN RAdd(RSum(s), "1") ELSE MaxOf({s[i] : i \in DOMAIN s} \cup {"1"})
                size == Mag(x)
                eps == RMul(size, RPow2(-34))
                loose == RMul(size, RDiv("1", "1000000"))
                fx == Objective(mo, e.f, e.norm, e.A, e.b, x, w)
                conQ == e.C # <<>>
            IN Need(IF conQ THEN RLe(val, RAdd(fx, eps)) /\ (e.full => RGe(val, RSub(fx, loose)))
                    ELSE RLe(RAbs(RSub(val, fx)), eps), "ValueAtTheCoefficients")
               \cup Need(e.x0 = <<>> \/ ~REq(Excess(e.C, e.lb, e.ub, e.x0), "0")
                         \/ RGe(val, RSub(Objective(mo, e.f, e.norm, e.A, e.b, e.x0, w), RMul(Mag(e.x0), RPow2(-34)))), "NotBelowTheStart")
               \cup Need(e.P = <<>> \/ FitCertOk(mo, e.norm, e.A, w, e.C, e.lb, e.ub, e.P, e.Q), "OracleCertificate")
               \cup Need(e.P = <<>> \/ RGe(IF e.retry = <<>> THEN val ELSE RMax(val, e.retry[1]), RSub(FitBound(e.b, w, e.lb, e.ub, e.P, e.Q), loose)), "GlobalMaximum")
               \cup Need(~conQ \/ ~e.full \/ RLe(Excess(e.C, e.lb, e.ub, x), loose), "Constraint")
               \cup Need(nit >= 0 /\ nit <= e.maxiter /\ ncalls >= nit + 1 /\ code \in 1..5 /\ (code = 4 <=> nit = e.maxiter), "Counts")
               \cup Need(e.kept[1] = e.kept[2], "ArgumentsUnchanged")
               \cup Need(\A k \in DOMAIN memo : memo[k].key = e.key => memo[k].res = r, "SameFitSameResult")

PredictClauses(e) ==
    LET mo == models[e.m] r == e.res IN
    IF mo.st = "unknown" THEN {}
    ELSE IF mo.st = "unfit" THEN Need(r.k = "err", "NothingToPredictWith")
    ELSE IF r.k \notin {"arr", "narr"} \/ r.sh # <<NRows(e.A)>> THEN {"OnePredictionPerRow"}
    ELSE UNION {LET V == ModelRow(mo, e.A, mo.x, ModelPolys(mo, e.A, mo.x), i)
                    T == IF mo.cls = "WILS" THEN V ELSE TermsRow(mo, e.A, mo.x, i)
                    eps == RMul(RowScale(mo, e.A, mo.x, i), RPow2(-36))
                    out == IF mo.cls = "WILS" /\ r.k = "arr" THEN "0" ELSE eps
                    y == At(r, i)
                IN Need(RFin(Lo(y)) /\ RFin(Hi(y)), "Finite")
                   \cup (IF ~(RFin(Lo(y)) /\ RFin(Hi(y))) THEN {} ELSE
                         Need(Includes(Iv(RSub(Lo(y), out), RAdd(Hi(y), out)), V), "PredictionEnclosesTheModel")
                         \cup Need(Includes(Iv(RSub(Lo(T), eps), RAdd(Hi(T), eps)), y), "PredictionNotWiderThanTerms"))
                : i \in 1..NRows(e.A)}
         \cup Need(e.kept[1] = e.kept[2], "ArgumentsUnchanged")

StepClauses(e) ==
    IF ~FitShape(e.res) \/ e.res.v[1].sh # <<NCols(e.A)>> THEN {"FitFails"}
    ELSE LET x == e.res.v[1].v
             g == TLCEval(LinGrad(e.f, e.norm, e.A, e.b, e.x0, e.w))
             d == [j \in DOMAIN x |-> RSub(x[j], e.x0[j])]
             size == RMul(RSum([j \in DOMAIN d |-> RAbs(d[j])]), RSum([j \in DOMAIN g |-> RAbs(g[j])]))
             mo == [cls |-> "WILS"]
         IN IF ~LinSmooth(e.f, e.norm, e.A, e.b, e.x0, e.w, e.h) \/ \A j \in DOMAIN g : REq(g[j], "0") THEN {}
            ELSE Need(RGt(Objective(mo, e.f, e.norm, e.A, e.b, x, e.w), Objective(mo, e.f, e.norm, e.A, e.b, e.x0, e.w)), "AscendsFromSmoothPoint")
                 \cup Need(/\ RGt(RDot(d, g), "0")
                           /\ \A j, k \in DOMAIN d : RLe(RAbs(RSub(RMul(d[j], g[k]), RMul(d[k], g[j]))), RMul(size, RPow2(-20))), "AlongTheGradient")

New == /\ Ev.op = "new" /\ Report(Need(Ev.res.k # "err", "NewFails"))
       /\ models' = models @@ (Ev.m :> Blank(Ev)) /\ UNCHANGED memo
DoFit == /\ Ev.op = "fit" /\ Report(FitClauses(Ev))
         /\ models' = [models EXCEPT ![Ev.m] = IF FitShape(Ev.res)
                       THEN [Described(Ev) EXCEPT !.st = "fit", !.x = Ev.res.v[1].v] ELSE [@ EXCEPT !.st = "unknown"]]
         /\ memo' = Append(memo, [key |-> Ev.key, res |-> Ev.res])
BadFit == /\ Ev.op = "badfit" /\ Report(Need(Ev.res.k = "err", "RefusesImpossibleFits"))
          /\ models' = [models EXCEPT ![Ev.m].st = "unknown"] /\ UNCHANGED memo
Predict == Ev.op = "predict" /\ Report(PredictClauses(Ev)) /\ UNCHANGED <<models, memo>>
Short == Ev.op = "step" /\ Report(StepClauses(Ev)) /\ UNCHANGED <<models, memo>>
Step == More /\ (New \/ DoFit \/ BadFit \/ Predict \/ Short) /\ l' = l + 1 /\ UNCHANGED run
=============================================================================
