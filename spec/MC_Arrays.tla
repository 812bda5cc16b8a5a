------------------------------ MODULE MC_Arrays ------------------------------
(* Laws of indexing, assignment and deletion, for every key on small shapes.    *)
EXTENDS Arrays, TLC
CONSTANT MaxDim
Shapes == {<<1>>, <<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<3, 1>>} \cup (IF MaxDim = 3 THEN {<<2, 1, 2>>, <<2, 2, 2>>} ELSE {})
Opt(n) == {<<>>} \cup {<<i>> : i \in (-(n + 1))..(n + 1)}
Selectors(n) == {[t |-> "i", i |-> i] : i \in (-n)..(n - 1)}
                \cup {[t |-> "s", b |-> b, e |-> e, st |-> st] : b \in Opt(n), e \in Opt(n), st \in {1, 2, -1}}
                \cup {[t |-> "m", l |-> m] : m \in [1..n -> BOOLEAN]}
                \cup {[t |-> "l", l |-> <<i>>] : i \in (-n)..(n - 1)}
VARIABLES sh, ax, s
vars == <<sh, ax, s>>
Init == sh \in Shapes /\ ax \in 1..Len(sh) /\ s \in Selectors(sh[ax])
Next == UNCHANGED vars
X == Arr(sh, [k \in 1..Size(sh) |-> IvOf(RInt(k))])
Key == [i \in 1..ax |-> IF i = ax THEN s ELSE Full]
Val == [k |-> "iv", v |-> IvOf("100")]
G == GetV(X, Key)
SeqSet(q) == {q[i] : i \in DOMAIN q}
ElemsOf(y) == IF y.k = "iv" THEN {y.v} ELSE SeqSet(y.v)
Vectors == {b \in Opt(sh[ax]) : TRUE}
\* slices against their definition by membership: i is selected by slice(b, e, 1) iff b <= i < e after wrapping
SliceLaw == s.t = "s" /\ s.st = 1 =>
    LET n == sh[ax] w(o, d) == IF o = <<>> THEN d ELSE IF o[1] < 0 THEN o[1] + n ELSE o[1]
    IN SeqSet(Sel(s, n)) = {i \in 0..(n - 1) : w(s.b, 0) <= i /\ i < w(s.e, n)}
ReverseLaw == s.t = "s" /\ s.st = -1 /\ s.b = <<>> /\ s.e = <<>> => Sel(s, sh[ax]) = [k \in 1..sh[ax] |-> sh[ax] - k]
GetSet == KeyOk(Key, sh) => (LET y == SetV(X, Key, Val) IN
          /\ WellFormed(y) /\ y.sh = sh
          /\ ElemsOf(GetV(y, Key)) \subseteq {IvOf("100")}
          /\ \A i \in DOMAIN y.v : y.v[i] = X.v[i] \/ (y.v[i] = IvOf("100") /\ X.v[i] \in ElemsOf(G)))
SetBack == KeyOk(Key, sh) => SetV(X, Key, G) = X
DelLaw == DelOk(X, Key) => (LET y == DelV(X, Key) IN
          /\ WellFormed(y) /\ ElemsOf(y) = SeqSet(X.v) \ ElemsOf(G)
          /\ Len(y.sh) = Len(sh) /\ \A i \in DOMAIN sh : i # ax => y.sh[i] = sh[i])
Turn == TransV(TransV(X)) = X /\ ReverseV(ReverseV(X)) = X /\ WellFormed(TransV(X))
Laws == SliceLaw /\ ReverseLaw /\ GetSet /\ SetBack /\ DelLaw /\ Turn
=============================================================================
