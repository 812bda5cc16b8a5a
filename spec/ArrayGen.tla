------------------------------- MODULE ArrayGen -------------------------------
(* Random behaviours of ArrayMachine, checked for its invariants and printed    *)
(* for replay in the real code.                                                 *)
EXTENDS ArrayMachine, TLC, Json
CONSTANT Depth
VARIABLES pool, hist, last
vars == <<pool, hist, last>>
Slots == 1..3
Vals == << <<"-1", "2">>, <<"3", "1">>, <<"2", "2">>, <<"0", "5">>, <<"-4", "-2">>, <<"1", "1">>, <<"1", "4">> >>
Shapes == {<<3>>, <<4>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 2>>, <<2, 1, 2>>, <<2, 2, 2>>}
Fresh(sh, seed) == Arr(sh, [k \in 1..Size(sh) |-> Vals[1 + ((seed + k * (seed + 3)) % 7)]])
SeqToSet(s) == {s[i] : i \in DOMAIN s}
R(S) == RandomElement(S)
Pick(n) == R(1..n)
Idx(n) == IF Pick(12) = 1 THEN R({n, -n - 1}) ELSE IF n = 0 THEN 0 ELSE R((-n)..(n - 1))
Opt(n) == IF Pick(3) = 1 THEN <<>> ELSE <<R((-(n + 1))..(n + 1))>>
Selector(n) ==
    LET p == Pick(10) IN
    CASE p <= 4 -> [t |-> "i", i |-> Idx(n)]
      [] p <= 8 -> [t |-> "s", b |-> Opt(n), e |-> Opt(n), st |-> R({1, 1, 2, -1})]
      [] p = 9 -> Full
      [] OTHER -> Full
OneKey(n) == LET p == Pick(8) IN
    IF p = 1 THEN <<[t |-> "l", l |-> <<Idx(n)>>]>>
    ELSE IF p = 2 /\ n > 1 THEN <<[t |-> "l", l |-> <<n - 1, 0>>]>>
    ELSE IF p = 3 /\ n = 3 THEN <<[t |-> "m", l |-> <<R(BOOLEAN), R(BOOLEAN), TRUE>>]>>
    ELSE IF p = 3 /\ n = 2 THEN <<[t |-> "m", l |-> <<R(BOOLEAN), R(BOOLEAN)>>]>>
    ELSE <<Selector(n)>>
Key(sh) == LET p == Pick(Len(sh)) IN
           IF Pick(25) = 1 THEN [i \in 1..(Len(sh) + 1) |-> [t |-> "i", i |-> 0]]
           ELSE CASE p = 1 -> OneKey(sh[1]) [] p = 2 -> <<Selector(sh[1]), Selector(sh[2])>>
                  [] p = 3 -> <<Selector(sh[1]), Selector(sh[2]), Selector(sh[3])>>
DelKey(sh) == LET p == Pick(Len(sh)) IN
              CASE p = 1 -> OneKey(sh[1]) [] p = 2 -> <<Full, Selector(sh[2])>> [] p = 3 -> <<Full, Full, Selector(sh[3])>>
Scalar == IF Pick(2) = 1 THEN [k |-> "iv", v |-> Vals[Pick(7)]] ELSE [k |-> "num", v |-> R({"0", "2", "-3", "1/2"})]
Val(sh) == LET p == Pick(10) IN
           IF p <= 4 THEN Scalar ELSE IF p <= 8 THEN [k |-> "slot", n |-> R(Slots)]
           ELSE IF sh = <<>> \/ 0 \in SeqToSet(sh) THEN Scalar ELSE [k |-> "narr", sh |-> <<sh[Len(sh)]>>, v |-> [i \in 1..sh[Len(sh)] |-> RInt(i)]]
NewShape(sh) == LET n == Size(sh) IN
    R({<<n>>, <<n, 1>>, <<1, n>>} \cup (IF n % 2 = 0 THEN {<<2, n \div 2>>, <<n \div 2, 2>>} ELSE {<<n + 1>>}) \cup {RevSeq(sh)})
Kinds == <<"get", "get", "set", "set", "set", "del", "iadd", "isub", "imul", "idiv", "add", "sub", "mul",
           "T", "reshape", "copy", "deepcopy", "neg", "rev", "list", "new">>
Mk(kind, t, d) ==
    LET sh == pool[t].sh none == [k |-> "num", v |-> "0"] IN
    CASE kind \in {"get"} -> [op |-> kind, t |-> t, d |-> d, key |-> Key(sh), val |-> none, sh |-> <<>>]
      [] kind = "set" -> LET key == Key(sh) IN [op |-> kind, t |-> t, d |-> d, key |-> key,
                         val |-> Val(IF KeyOk(key, sh) THEN OutShape(key, sh) ELSE <<>>), sh |-> <<>>]
      [] kind = "del" -> [op |-> kind, t |-> t, d |-> d, key |-> DelKey(sh), val |-> none, sh |-> <<>>]
      [] kind \in Binary -> [op |-> kind, t |-> t, d |-> d, key |-> <<>>, val |-> Val(sh), sh |-> <<>>]
      [] kind = "reshape" -> [op |-> kind, t |-> t, d |-> d, key |-> <<>>, val |-> none, sh |-> NewShape(sh)]
      [] kind = "new" -> [op |-> kind, t |-> t, d |-> d, key |-> <<>>, val |-> Fresh(R(Shapes), Pick(50)), sh |-> <<>>]
      [] OTHER -> [op |-> kind, t |-> t, d |-> d, key |-> <<>>, val |-> none, sh |-> <<>>]

Init == pool = [s \in Slots |-> Fresh(<<1>>, s)] /\ hist = <<>> /\ last = pool
Small(x) == \A k \in DOMAIN x.v : RLt(MagI(x.v[k]), "1000000")
Next == /\ Len(hist) < Depth
        /\ \E kind \in {IF Len(hist) < 3 THEN "new" ELSE Kinds[Pick(21)]}, t \in {R(Slots)},
              d \in {IF Len(hist) < 3 THEN Len(hist) + 1 ELSE R(Slots)} :
           \E o \in {Mk(kind, t, d)} : \E v \in {Verdict(pool, o)} :
           IF v = "open" \/ (v = "ok" /\ o.op \in Binary /\ ~Small(NewValue(pool, o)))
           THEN pool' = [pool EXCEPT ![d] = pool[t]] /\ last' = pool
                /\ hist' = Append(hist, [op |-> "copy", t |-> t, d |-> d, key |-> <<>>, val |-> [k |-> "num", v |-> "0"], sh |-> <<>>])
           ELSE pool' = After(pool, o) /\ hist' = Append(hist, o) /\ last' = pool
WellFormedPool == \A s \in Slots : WellFormed(pool[s])
\* only the slot that an operation names may change
Frame == Len(hist) > 3 => \A s \in Slots : s # Target(hist[Len(hist)]) => pool[s] = last[s]
Written == Len(hist) = Depth => PrintT("GEN|" \o ToJson(hist))
GenInv == WellFormedPool /\ Frame /\ Written
=============================================================================
