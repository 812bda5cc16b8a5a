-------------------------------- MODULE Elem --------------------------------
(* Elementary functions in exact rational arithmetic: every operator returns  *)
(* an interval <<lo, hi>> of rationals that contains the true real value, of  *)
(* relative width below 2^-80.  Intermediate results are rounded outward.     *)
EXTENDS IA

LOCAL PREC == 160
Sh(x) == <<RDn(x[1], PREC), RUp(x[2], PREC)>>
LOCAL Ball(x, e) == <<RSub(x[1], e), RAdd(x[2], e)>>
LOCAL Scale(x, n) == IF n >= 0 THEN <<RMul(x[1], RPow2(n)), RMul(x[2], RPow2(n))>>
                     ELSE <<RDiv(x[1], RPow2(-n)), RDiv(x[2], RPow2(-n))>>

\* ---- pi and log 2, to 2^-400 and 2^-300; ElemCheck compares them with series ------
PiLo == "2028094311682742809715567837825223629790287900044816300897797759403807726343497624686380840231704203856891694931831894059/645562469521727147413979793000752968582426448207305878207664839135161905504210298657411338320034457858975792993186873344"
PiHi == "8112377246730971238862271351300894519161151600179265203591191037615230905373990498745523360926816815427566779727327576237/2582249878086908589655919172003011874329705792829223512830659356540647622016841194629645353280137831435903171972747493376"
PiI == <<PiLo, PiHi>>

\* ---- power series ------------------------------------------------------------
\* Terms are truncated to multiples of 2^-180; with at most 40 of them, each less than 2
\* and multiplied by factors whose running products stay below 2, the sum is off by less than 2^-160.
LOCAL Cut(v) == RGridDn(v, -180)
LOCAL EPS == RPow2(-160)

\* ---- exp --------------------------------------------------------------------
RECURSIVE ExpTaylor(_, _, _, _)
ExpTaylor(x, t, k, n) == IF k > n THEN "0"          \* t = x^k/k!
                         ELSE RAdd(t, ExpTaylor(x, Cut(RDiv(RMul(t, x), RInt(k + 1))), k + 1, n))
RECURSIVE Square(_, _)
Square(x, n) == IF n = 0 THEN x ELSE Square(Sh(MulI(x, x)), n - 1)
ExpI(x) ==                                           \* x rational
    IF REq(x, "0") THEN Pt("1")
    ELSE IF RLt(x, "-100000") THEN <<"0", RPow2(-100000)>>
    ELSE IF RLt("100000", x) THEN <<RPow2(100000), "inf">>
    ELSE LET k == IF RLog2(x) > -9 THEN RLog2(x) + 9 ELSE 0
             s == RDiv(x, RPow2(k))                  \* |s| < 2^-8
         IN Square(Ball(Pt(ExpTaylor(Cut(s), "1", 0, 16)), EPS), k)
ExpR(x) == <<ExpI(x[1])[1], ExpI(x[2])[2]>>          \* of a thin interval

\* ---- log --------------------------------------------------------------------
RECURSIVE AtanhSeries(_, _, _, _)
AtanhSeries(z2, t, k, n) == IF k > n THEN "0"        \* t = z^(2k); the sum is atanh(z)/z
    ELSE RAdd(Cut(RDiv(t, RInt(2 * k + 1))), AtanhSeries(z2, Cut(RMul(t, z2)), k + 1, n))
LogM(m) ==                                           \* 2/3 <= m <= 4/3 rational
    LET z == RDiv(RSub(m, "1"), RAdd(m, "1"))        \* |z| <= 1/5
        s == Pt(AtanhSeries(Cut(RMul(z, z)), "1", 0, 26))    \* 25^-27 < 2^-125
    IN Sh(MulI(Pt(RMul("2", z)), Ball(s, RPow2(-120))))
Ln2 == <<"705982871847712253754428596364285111867275619862497794530680646233128587178773266287362927/1018517988167243043134222844204689080525734196832968125318070224677190649881668353091698688",
         "1411965743695424507508857192728570223734551239724995589061361292466257174357546532574725855/2037035976334486086268445688409378161051468393665936250636140449354381299763336706183397376">>
LogI(x) ==                                           \* x > 0 rational
    LET e0 == RLog2(x)
        m0 == IF e0 >= 0 THEN RDiv(x, RPow2(e0)) ELSE RMul(x, RPow2(-e0))
        e == IF RLt("4/3", m0) THEN e0 + 1 ELSE e0
        m == IF RLt("4/3", m0) THEN RDiv(m0, "2") ELSE m0
    IN Sh(AddI(LogM(m), MulI(Pt(RInt(e)), Ln2)))

\* ---- sin, cos -----------------------------------------------------------------
RECURSIVE TrigSeries(_, _, _, _)
TrigSeries(r2, t, k, n) == IF k > n THEN "0"         \* t = the term of degree k
    ELSE RAdd(t, TrigSeries(r2, Cut(RNeg(RDiv(RMul(t, r2), RInt((k + 1) * (k + 2))))), k + 2, n))
\* quadrant and remainder of x modulo pi/2; the remainder is known to 2^-200 for |x| < 2^150
LOCAL Quad(x) == RFloor(RDiv(RMul(x, "2"), PiLo))
LOCAL Mod4(q) == RToInt(RSub(q, RMul("4", RFloor(RDiv(q, "4")))))
LOCAL Rem(x, q) == SubI(Pt(x), Scale(MulI(Pt(q), PiI), -1))
SinCos(x) ==
    LET q == Quad(x)
        rr == Rem(x, q)
        r == RGridDn(rr[1], -180)
        e == RSub(rr[2], r)
        r2 == Cut(RMul(r, r))
        slack == RAdd(e, RPow2(-110))
        s == Ball(Sh(MulI(Pt(r), Ball(Pt(TrigSeries(r2, "1", 1, 35)), RPow2(-110)))), e)
        c == Ball(Pt(TrigSeries(r2, "1", 0, 36)), slack)
        n == Mod4(q)
    IN CASE n = 0 -> <<s, c>> [] n = 1 -> <<c, NegI(s)>> [] n = 2 -> <<NegI(s), NegI(c)>> [] OTHER -> <<NegI(c), s>>
SinI(x) == IF REq(x, "0") THEN Pt("0") ELSE SinCos(x)[1]
CosI(x) == IF REq(x, "0") THEN Pt("1") ELSE SinCos(x)[2]

\* an integer k with  a <= shift*pi + 2 k pi <= b
HasCrit(a, b, shift) ==
    RLe(RCeil(RDiv(RSub(a, RMul(shift, PiLo)), RMul("2", PiLo))), RFloor(RDiv(RSub(b, RMul(shift, PiLo)), RMul("2", PiLo))))

\* ---- ranges over proper intervals: <<enclosure of the minimum, of the maximum>> -----
Ends(l, h) == <<l, h>>
MinI(x, y) == <<RMin(x[1], y[1]), RMin(x[2], y[2])>>
MaxI(x, y) == <<RMax(x[1], y[1]), RMax(x[2], y[2])>>
ExpRange(x) == <<ExpI(Lo(x)), ExpI(Hi(x))>>
LogRange(x) == <<IF RLe(Lo(x), "0") THEN Pt("-inf") ELSE LogI(Lo(x)), IF RLe(Hi(x), "0") THEN Pt("-inf") ELSE LogI(Hi(x))>>
SinRange(x) == LET p == SinI(Lo(x)) q == SinI(Hi(x)) IN
    <<IF HasCrit(Lo(x), Hi(x), "-1/2") THEN Pt("-1") ELSE MinI(p, q), IF HasCrit(Lo(x), Hi(x), "1/2") THEN Pt("1") ELSE MaxI(p, q)>>
CosRange(x) == LET p == CosI(Lo(x)) q == CosI(Hi(x)) IN
    <<IF HasCrit(Lo(x), Hi(x), "1") THEN Pt("-1") ELSE MinI(p, q), IF HasCrit(Lo(x), Hi(x), "0") THEN Pt("1") ELSE MaxI(p, q)>>
\* t -> t^p, t > 0, p rational
PowR(t, p) == ExpR(Sh(MulI(LogI(t), Pt(p))))
PowRange(x, p) ==
    LET f(t) == IF RLe(t, "0") THEN Pt("0") ELSE PowR(t, p)
    IN IF RLe("0", p) THEN <<f(Lo(x)), f(Hi(x))>> ELSE <<f(Hi(x)), f(Lo(x))>>
=============================================================================
