-------------------------------- MODULE LinSys --------------------------------
(* Interval systems A x = b: solution sets and recognizing functionals.         *)
(* A is an observed array of shape <<n, m>>, b one of shape <<n>>; x and w are   *)
(* sequences of numbers.                                                        *)
EXTENDS Values

NRows(A) == A.sh[1]
NCols(A) == A.sh[2]
El(A, i, j) == At(A, (i - 1) * A.sh[2] + j)
Rhs(b, i) == At(b, i)
\* the exact set {sum a_j x_j : a_j in A_ij}
RowAt(A, i, x) == LET t == [j \in 1..NCols(A) |-> MulI(El(A, i, j), Pt(x[j]))] IN
                  Iv(RSum([j \in DOMAIN t |-> Lo(t[j])]), RSum([j \in DOMAIN t |-> Hi(t[j])]))
Meets(x, y) == RLe(Lo(x), Hi(y)) /\ RLe(Lo(y), Hi(x))
InTolerable(A, b, x) == \A i \in 1..NRows(A) : Includes(Rhs(b, i), RowAt(A, i, x))
InUnited(A, b, x) == \A i \in 1..NRows(A) : Meets(Rhs(b, i), RowAt(A, i, x))

\* constituents of the functionals for one row
TolRow(A, b, x, i) == RSub(Rad(Rhs(b, i)), MagI(SubI(Pt(Mid(Rhs(b, i))), RowAt(A, i, x))))
UniRow(A, b, x, i) == RSub(Rad(Rhs(b, i)), MigI(SubI(Pt(Mid(Rhs(b, i))), RowAt(A, i, x))))
UssRow(A, b, x, i) ==
    RSub(RAdd(Rad(Rhs(b, i)), RDot([j \in 1..NCols(A) |-> Rad(El(A, i, j))], [j \in 1..NCols(A) |-> RAbs(x[j])])),
         RAbs(RSub(Mid(Rhs(b, i)), RDot([j \in 1..NCols(A) |-> Mid(El(A, i, j))], x))))
ChebRow(A, b, x, i) == RAdd(Rad(Rhs(b, i)), MagI(SubI(Pt(Mid(Rhs(b, i))), RowAt(A, i, x))))
Form(f, A, b, x, i) == CASE f = "Tol" -> TolRow(A, b, x, i) [] f = "Uni" -> UniRow(A, b, x, i)
                         [] f = "Uss" -> UssRow(A, b, x, i) [] f = "Cheb" -> ChebRow(A, b, x, i)
\* what rounding may add to a constituent
Scale(A, b, x, i) == RAdd(MagI(Rhs(b, i)), RSum([j \in 1..NCols(A) |-> RMul(MagI(El(A, i, j)), RAbs(x[j]))]))
InSet(f, A, b, x) == IF f = "Tol" THEN InTolerable(A, b, x) ELSE InUnited(A, b, x)
LOCAL Least(S) == CHOOSE m \in S : \A y \in S : RLe(m, y)
Functional(f, A, b, x, w) == Least({RMul(w[i], Form(f, A, b, x, i)) : i \in 1..NRows(A)})
=============================================================================
