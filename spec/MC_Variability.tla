--------------------------- MODULE MC_Variability ---------------------------
(* Signatures belong to condition numbers: matrices U S V with rational rotations U,  *)
(* V and any singular values have the signature of their quotient, whatever the rows   *)
(* and columns are ordered like, and signatures order condition numbers.                *)
EXTENDS Variability, FiniteSets, TLC
CONSTANT Top
VARIABLES s, t, u, w
Angles == {<<"1", "0">>, <<"3/5", "4/5">>, <<"-4/5", "3/5">>, <<"5/13", "-12/13">>}
RotOf(a) == <<a, <<RNeg(a[2]), a[1]>>>>
Times(A, B) == TLCEval([i \in 1..2 |-> [j \in 1..2 |-> RAdd(RMul(A[i][1], B[1][j]), RMul(A[i][2], B[2][j]))]])
M(p, q) == Times(RotOf(u), Times(<<<<RInt(p), "0">>, <<"0", RInt(q)>>>>, RotOf(w)))
Init == s \in 1..Top /\ t \in 0..Top /\ u \in Angles /\ w \in Angles
Next == FALSE /\ UNCHANGED <<s, t, u, w>>
Swap(B) == <<B[2], B[1]>>
Trans(B) == <<<<B[1][1], B[2][1]>>, <<B[1][2], B[2][2]>>>>
Wider(B) == <<B[1], B[2], <<"0", "0">>>>
Square(p, q) == LET k == RDiv(RInt(p * p), RInt(q * q)) IN RMax(k, RDiv("1", k))
Right == IF t = 0 THEN Signature(M(s, t)) = "inf"
         ELSE LET S == Signature(M(s, t)) IN
              /\ REq(S, SignatureOf(Square(s, t)))
              /\ \A B \in {Swap(M(s, t)), Trans(M(s, t)), Wider(M(s, t))} : REq(Signature(B), S)
\* the two ways to the signature agree where both apply
Straight == LET D == <<<<RInt(s), "0">>, <<"0", RInt(t)>>>> E == <<<<RInt(s), "0", "0">>, <<"0", RInt(t), "0">>, <<"0", "0", RInt(s)>>>> IN
            Orthogonal(E) /\ REq(Signature(D), Signature(E))
Ordered == \A p \in 1..Top : t = 0 \/ (RLe(Square(s, t), Square(p, t)) <=> RLe(Signature(M(s, t)), SignatureOf(Square(p, t))))
\* the corners of a box of matrices, and the square of the measure
Boxes == LET A == <<<<<<"1", "2">>, <<"0", "0">>>>, <<<<"-1", "1">>, <<RInt(s), RInt(s + t)>>>>>> IN
         Cardinality(Corners(A)) = (IF t = 0 THEN 4 ELSE 8) /\ \A B \in Corners(A) : \A i, j \in 1..2 : B[i][j] \in {A[i][j][1], A[i][j][2]}
Measure == t = 0 \/ REq(CondOf(RMul(RMul(RInt(s), RInt(t)), "7/2"), 1, RInt(t), <<"3", "4">>, <<"5">>), RMul(RInt(s * s), "49/4"))
=============================================================================
