----------------------------- MODULE MC_Picture -----------------------------
(* SamePath means: the same edges.  All paths of up to Len points over a few.     *)
EXTENDS Picture, TLC
CONSTANTS Points, MaxLen
VARIABLES P, Q
Paths == UNION {[1..n -> Points] : n \in 0..MaxLen}
Same(p, q) == p = q
Edges(R) == LET T == Tidy(R, Same) n == Len(T) IN IF n < 2 THEN {{T[i]} : i \in 1..n} ELSE {{T[i], T[(i % n) + 1]} : i \in 1..n}
NoPointTwice(R) == LET T == Tidy(R, Same) IN \A i, j \in DOMAIN T : i # j => T[i] # T[j]
Init == P \in Paths /\ Q \in Paths
Next == FALSE /\ UNCHANGED <<P, Q>>
Turned(R, s) == [i \in DOMAIN R |-> R[((i - 1 + s) % Len(R)) + 1]]
Back(R) == [i \in DOMAIN R |-> R[Len(R) + 1 - i]]
Invariant == (Len(P) > 0 /\ Q = P) => /\ \A s \in 0..Len(P) : SamePath(P, Turned(P, s), Same)
                                      /\ SamePath(P, Back(P), Same) /\ SamePath(P, Append(P, P[1]), Same) /\ SamePath(<<P[1]>> \o P, P, Same)
Meaning == (NoPointTwice(P) /\ NoPointTwice(Q)) => (SamePath(P, Q, Same) <=> Edges(P) = Edges(Q))
Symmetric == SamePath(P, Q, Same) = SamePath(Q, P, Same)
=============================================================================
