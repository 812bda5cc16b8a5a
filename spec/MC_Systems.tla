------------------------------ MODULE MC_Systems ------------------------------
(* What the documentation claims about the test systems, from their entries: exact   *)
(* determinants of all vertex matrices.  A matrix of independent intervals is regular *)
(* exactly when these determinants have one sign.                                     *)
EXTENDS Systems, FiniteSets, TLC
CONSTANTS MaxN, Steps
VARIABLES job
\* determinant by expansion along the first row; M is a function of row and column
RECURSIVE Det(_, _)
Minor(M, n, c) == [i \in 1..n - 1 |-> [j \in 1..n - 1 |-> M[i + 1][IF j < c THEN j ELSE j + 1]]]
Det(M, n) == IF n = 1 THEN M[1][1]
             ELSE LET t == [c \in 1..n |-> RMul(IF c % 2 = 1 THEN M[1][c] ELSE RNeg(M[1][c]), Det(Minor(M, n, c), n - 1))]
                  IN RSum([c \in 1..n |-> t[c]])
Cells(E, n) == {<<i, j>> \in (1..n) \X (1..n) : ~REq(Lo(E[i][j]), Hi(E[i][j]))}
Signs(E, n) == {RSgn(Det([i \in 1..n |-> [j \in 1..n |-> IF <<i, j>> \in S THEN Hi(E[i][j]) ELSE Lo(E[i][j])]], n)) : S \in SUBSET Cells(E, n)}
Regular(E, n) == Signs(E, n) \in {{1}, {-1}}
Grid == {RDiv(RInt(k), "4") : k \in 0..Steps}
Neumaiers == {<<"neumaier", n, RDiv(RInt(k), "2")>> : n \in 2..MaxN, k \in 0..2 * MaxN + 2}
Sharys == {<<"shary", n, a, b>> : n \in 2..MaxN, a \in Grid, b \in Grid}
Tofts == {<<"toft", n, r>> : n \in 2..MaxN, r \in Grid}
Diags == {<<"diag", n, m, k>> : n \in 1..4, m \in 1..4, k \in -4..4}
Init == job \in Neumaiers \cup Sharys \cup Tofts \cup Diags
Next == FALSE /\ job' = job
LOCAL Mat(n, F(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> F(i, j)])])
\* non-singular exactly for theta > n (n even), theta > sqrt(n^2 - 1) (n odd)
NeumaierClaim ==
    job[1] = "neumaier" =>
        LET n == job[2] t == job[3] IN
        Regular(Mat(n, LAMBDA i, j : NeumaierEntry(t, i, j)), n)
            = (IF n % 2 = 0 THEN RGt(t, RInt(n)) ELSE RGt(RMul(t, t), RInt(n * n - 1)))
\* every allowed Shary system is regular; at the excluded border alpha = 0 it is not
SharyClaim ==
    job[1] = "shary" =>
        LET n == job[2] a == job[3] b == job[4]
            E == Mat(n, LAMBDA i, j : SharyEntry(n, RInt(n), a, b, i, j))
        IN /\ SharyAllowed(n, RInt(n), a, b) => Regular(E, n)
           /\ (REq(a, "0") /\ RLe(b, "1")) => ~Regular(E, n)
           /\ \A i, j \in 1..n : SharyAllowed(n, RInt(n), a, b) => Proper(E[i][j])
\* a Toft matrix is symmetric, and so are its ends
ToftClaim ==
    job[1] = "toft" =>
        LET n == job[2] r == job[3] IN
        \A i, j \in 1..n : SameIv(ToftEntry(n, r, i, j), ToftEntry(n, r, j, i)) /\ Proper(ToftEntry(n, r, i, j))
\* taking the k-th diagonal of the matrix made from a vector gives the vector; lengths are numbers of places
DiagClaim ==
    job[1] = "diag" =>
        LET n == job[2] m == job[3] k == job[4]
            v == [p \in 1..n |-> Pt(RInt(p))]
            s == DiagSize(n, k)
        IN /\ DiagLen(s, s, k) = n
           /\ \A p \in 1..n : SameIv(DiagEntry(v, k, DiagPlace(k, p)[1], DiagPlace(k, p)[2]), v[p])
           /\ DiagLen(n, m, k) = Cardinality({c \in (1..n) \X (1..m) : c[2] - c[1] = k})
           /\ \A p \in 1..DiagLen(n, m, k) : DiagPlace(k, p)[2] - DiagPlace(k, p)[1] = k /\ DiagPlace(k, p)[1] \in 1..n /\ DiagPlace(k, p)[2] \in 1..m
=============================================================================
