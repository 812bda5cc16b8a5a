------------------------------ MODULE MC_Optim ------------------------------
(* Weak duality: no admissible point beats a legal certificate, on every small    *)
(* system of two equations with one unknown, with and without a constraint.       *)
EXTENDS Optim, TLC
CONSTANTS G
VARIABLES a, b, cert, con
vars == <<a, b, cert, con>>
Ivs == {Iv(RInt(p), RInt(q)) : <<p, q>> \in {<<p, q>> \in (-G..G) \X (-G..G) : p <= q}}
Lams == {"0", "1/3", "1/2", "2/3", "1"}
None == [none |-> TRUE]
Init == a \in [1..2 -> Ivs] /\ b = <<>> /\ cert = <<>> /\ con = None
Next == /\ b = <<>> /\ UNCHANGED a
        /\ b' \in {<<p, q>> \in Ivs \X Ivs : RGe(Hi(p), "0")}
        /\ \E l \in Lams : cert' \in {<<[s |-> s1, end |-> e1, lam |-> l], [s |-> s2, end |-> e2, lam |-> RSub("1", l)]>> :
                                       s1 \in {1, -1}, s2 \in {1, -1}, e1 \in {1, 2}, e2 \in {1, 2}}
        /\ con' \in [s : {1, -1}, lam : {"0", "1"}]
A == [k |-> "arr", sh |-> <<2, 1>>, v |-> a]
B == [k |-> "arr", sh |-> <<2>>, v |-> b]
P == [i \in 1..2 |-> [i |-> i, s |-> cert[i].s, a |-> <<a[i][cert[i].end]>>, lam |-> cert[i].lam]]
Q == <<[r |-> 1, s |-> con.s, lam |-> con.lam]>>
C == <<<<"1">>>>
W == <<"2", "1">>
WeakDuality == (b # <<>> /\ CertOk(A, B, W, C, <<"-1">>, <<"1/2">>, P, Q)) =>
        \A x \in {"-2", "-1", "-1/2", "0", "1/4", "1/2", "1", "2"} :
            REq(Excess(C, <<"-1">>, <<"1/2">>, <<x>>), "0")
            => RLe(Functional("Tol", A, B, <<x>>, W), CertBound(B, W, <<"-1">>, <<"1/2">>, P, Q))
=============================================================================
