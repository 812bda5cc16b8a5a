-------------------------------- MODULE Calls --------------------------------
(* Which calls are well formed.  A call has an operation, the shapes s of its     *)
(* array arguments in order (<<-1>> where one is left out), an option and, for    *)
(* scalar operations, the interval x and the exponent or divisor p.               *)
EXTENDS Ops
Absent == <<-1>>
Given(sh) == sh # Absent
Mat(sh) == Len(sh) = 2 /\ sh[1] >= 1 /\ sh[2] >= 1
Vec(sh, n) == sh = <<n>>
MayVec(sh, n) == ~Given(sh) \/ Vec(sh, n)
Square == {"Gauss", "Gauss_Seidel", "HBR", "PPS", "Subdiff"}
Elementary == {"sqrt", "exp", "log", "sin", "cos"}
Consistency == {"uni", "tol"}
Functionals == {"Tol", "Uni", "Uss", "ChebNorm"}
Fits == {"Tol", "Uni", "Uss"}
\* limits of a linear constraint on m unknowns: matrix, lower, upper limits
ConstraintOk(C, lb, ub, m) == ~Given(C) \/ (Mat(C) /\ C[2] = m /\ MayVec(lb, C[1]) /\ MayVec(ub, C[1]))
\* product of two arrays with one or two dimensions: <<>> when not defined
Conformable(a, b) == a[Len(a)] = b[1]
Product(a, b) == SubSeq(a, 1, Len(a) - 1) \o SubSeq(b, 2, Len(b))

WellFormed(e) ==
    LET s == e.s IN
    CASE e.op \in Square -> Mat(s[1]) /\ s[1][1] = s[1][2] /\ Vec(s[2], s[1][1])
      [] e.op = "Rohn" -> /\ e.opt \in Consistency /\ Mat(s[1]) /\ Vec(s[2], s[1][1])
                          /\ (e.opt = "tol" \/ s[1][2] <= s[1][1])
      [] e.op = "Neumaier" -> Mat(s[1]) /\ Vec(s[2], s[1][1]) /\ Vec(s[3], s[1][2]) /\ MayVec(s[4], s[1][2])
      [] e.op = "maximize" -> /\ e.opt \in Functionals /\ Mat(s[1]) /\ Vec(s[2], s[1][1]) /\ MayVec(s[3], s[1][2])
                              /\ ConstraintOk(s[4], s[5], s[6], s[1][2])
      [] e.op = "WILS" -> e.opt \in Fits /\ Mat(s[1]) /\ Vec(s[2], s[1][1]) /\ MayVec(s[3], s[1][2])
      [] e.op \in {"lineqs", "IntLinIncR2"} ->
             /\ (IF e.op = "lineqs" THEN e.opt = "numbers" ELSE e.opt \in Consistency)
             /\ Mat(s[1]) /\ s[1][2] = 2 /\ Vec(s[2], s[1][1])
      [] e.op \in {"lineqs3D", "IntLinIncR3"} ->
             /\ (IF e.op = "lineqs3D" THEN e.opt = "numbers" ELSE e.opt \in Consistency)
             /\ Mat(s[1]) /\ s[1][2] = 3 /\ Vec(s[2], s[1][1])
      [] e.op = "matmul" -> Conformable(s[1], s[2])
      [] e.op = "intersection" -> s[1] = s[2]
      [] e.op = "vertex" -> Len(s[1]) \in {1, 2}
      [] e.op = "dist" -> e.opt \in {"whole", "infinity"}
      [] e.op = "ufunc" -> e.opt \in Elementary
      [] e.op = "order" -> e.opt \in {"number", "interval"}
      [] e.op = "asinterval" -> e.opt \in {"number", "interval", "list", "numbers"}
      [] e.op = "get_shape" -> e.opt = "even"
      [] e.op = "pow" -> (RIsInt(e.p) /\ RLe("0", e.p)) \/ RLe("0", RMin(Lo(e.x), Hi(e.x)))
      [] e.op = "div" -> ~(RLe(RMin(Lo(e.x), Hi(e.x)), "0") /\ RLe("0", RMax(Lo(e.x), Hi(e.x))))
      [] e.op = "root" -> RLe(Lo(e.x), "0") /\ RLe("0", Hi(e.x))

\* shape of the answer; Absent where other properties tell
Answer(e) ==
    CASE e.op \in Square \cup {"Rohn", "Neumaier", "maximize", "WILS"} -> <<e.s[1][2]>>
      [] e.op = "matmul" -> Product(e.s[1], e.s[2])
      [] e.op = "intersection" -> e.s[1]
      [] e.op = "vertex" -> IF Len(e.s[1]) = 1 THEN <<2 ^ e.s[1][1], e.s[1][1]>> ELSE <<2 ^ (e.s[1][1] * e.s[1][2]), e.s[1][1], e.s[1][2]>>
      [] e.op \in {"ufunc", "dist", "pow", "div"} -> <<>>
      [] OTHER -> Absent
=============================================================================
