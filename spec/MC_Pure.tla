------------------------------ MODULE MC_Pure ------------------------------
(* Libraries with every small defect, and all short histories of a user who calls,   *)
(* writes, renews and spoils: the verdicts of Pure blame no pure library, and every    *)
(* defective one is blamed after some history.                                         *)
EXTENDS Pure, FiniteSets, TLC
CONSTANTS Depth
Funs == {"f", "g"}
Objs == {"A", "B"}
Vals == {0, 1}
Kinds == {"pure",      \* the value of the argument and the name of the function
          "fails",     \* raises (a pure answer)
          "counter",   \* also depends on how often the library was called
          "leak",      \* depends on a setting that the function "sets" changes
          "sets",      \* changes that setting, else pure
          "mutates",   \* changes its argument
          "failmut",   \* changes its argument and raises
          "returnsarg",\* the result is the argument
          "idcache",   \* remembers its first result for every object
          "valcache",  \* remembers the result for every value, hands out the same object again
          "buffer",    \* hands out one buffer, rewritten by every call
          "world"}     \* leaves a trace in the process
Pick == [Funs -> Kinds]
Impure(L) == (\E k \in {"counter", "mutates", "failmut", "returnsarg", "idcache", "valcache", "buffer", "world"} : \E h \in Funs : L[h] = k)
             \/ (\E f, g \in Funs : L[f] = "leak" /\ L[g] = "sets")
\* store: reference -> value; objects and results are references
VARIABLES lib, st, depth
vars == <<lib, st, depth>>
St0 == [store |-> <<0, 1>>, obj |-> [A |-> 1, B |-> 2], results |-> <<>>, memo |-> <<>>, calls |-> 0, setting |-> 0,
        cache |-> <<>>, buf |-> 0, trace |-> 0, bad |-> {}]
HeapOf(s) == [o \in Objs |-> s.store[s.obj[o]]]
HeldOf(s) == [i \in DOMAIN s.results |-> s.store[s.results[i]]]
WorldOf(s) == [w |-> s.trace]
View(s) == [heap |-> HeapOf(s), held |-> HeldOf(s), world |-> WorldOf(s), memo |-> s.memo]
Code(f) == IF f = "f" THEN 0 ELSE 10
Fresh(s, v) == [s |-> [s EXCEPT !.store = Append(@, v)], ref |-> Len(s.store) + 1, err |-> FALSE]
CacheHit(s, k) == {i \in DOMAIN s.cache : s.cache[i][1] = k}
Remembering(s, k, v) ==
    IF CacheHit(s, k) # {} THEN [s |-> s, ref |-> s.cache[CHOOSE i \in CacheHit(s, k) : TRUE][2], err |-> FALSE]
    ELSE LET r == Fresh(s, v) IN [r EXCEPT !.s.cache = Append(@, <<k, r.ref>>)]
Run(L, f, o, s0) ==
    LET s == [s0 EXCEPT !.calls = @ + 1]
        a == s.obj[o]
        v == s.store[a]
        good == Code(f) + v
    IN CASE L[f] = "pure" -> Fresh(s, good)
         [] L[f] = "fails" -> [s |-> s, ref |-> 0, err |-> TRUE]
         [] L[f] = "counter" -> Fresh(s, good + 100 * (s.calls % 2))
         [] L[f] = "leak" -> Fresh(s, good + 100 * s.setting)
         [] L[f] = "sets" -> Fresh([s EXCEPT !.setting = 1], good)
         [] L[f] = "mutates" -> Fresh([s EXCEPT !.store[a] = 1 - @], good)
         [] L[f] = "failmut" -> [s |-> [s EXCEPT !.store[a] = 1 - @], ref |-> 0, err |-> TRUE]
         [] L[f] = "returnsarg" -> [s |-> s, ref |-> a, err |-> FALSE]
         [] L[f] = "idcache" -> LET r == Remembering(s, <<f, a>>, good) IN Fresh(r.s, r.s.store[r.ref])
         [] L[f] = "valcache" -> Remembering(s, <<f, "value", v>>, good)
         [] L[f] = "buffer" -> IF s.buf = 0 THEN LET r == Fresh(s, good) IN [r EXCEPT !.s.buf = r.ref]
                               ELSE [s |-> [s EXCEPT !.store[s.buf] = good], ref |-> s.buf, err |-> FALSE]
         [] L[f] = "world" -> Fresh([s EXCEPT !.trace = 1], good)
CallStep(L, f, o, s) ==
    LET r == Run(L, f, o, s)
        res == IF r.err THEN "error" ELSE ToString(r.s.store[r.ref])
        verdict == CallVerdict(View(s), f, <<o>>, res, HeapOf(r.s), HeldOf([r.s EXCEPT !.results = s.results]), WorldOf(r.s))
    IN [r.s EXCEPT !.results = IF r.err THEN s.results ELSE Append(s.results, r.ref),
                   !.memo = Remember(s.memo, PKey(f, <<o>>, HeapOf(s)), res),
                   !.bad = @ \cup (IF Blameless(verdict) THEN {} ELSE {"call"})]
\* the user's own actions: only what was written may change
WriteStep(o, v, s) ==
    LET t == [s EXCEPT !.store[s.obj[o]] = v]
    IN [t EXCEPT !.bad = @ \cup (IF Moved(HeapOf(s), HeapOf(t)) \subseteq {o} /\ Moved(HeldOf(s), HeldOf(t)) = {} THEN {} ELSE {"write"})]
RenewStep(o, s) == LET r == Fresh(s, s.store[s.obj[o]]) IN [r.s EXCEPT !.obj[o] = r.ref]
SpoilStep(i, s) ==
    LET t == [s EXCEPT !.store[s.results[i]] = 99]
    IN [t EXCEPT !.bad = @ \cup (IF Moved(HeapOf(s), HeapOf(t)) = {} /\ Moved(HeldOf(s), HeldOf(t)) \subseteq {i} THEN {} ELSE {"spoil"})]
Succ(L, s) ==
    {CallStep(L, f, o, s) : f \in Funs, o \in Objs}
    \cup {WriteStep(o, v, s) : o \in Objs, v \in Vals}
    \cup {RenewStep(o, s) : o \in Objs}
    \cup {SpoilStep(i, s) : i \in DOMAIN s.results}
RECURSIVE Blamed(_, _, _)
Blamed(L, s, d) == s.bad # {} \/ (d > 0 /\ \E t \in Succ(L, s) : Blamed(L, t, d - 1))
Init == lib \in Pick /\ st = St0 /\ depth = 0
Next == depth < Depth /\ st.bad = {} /\ st' \in Succ(lib, st) /\ depth' = depth + 1 /\ UNCHANGED lib
NoFalseBlame == st.bad # {} => Impure(lib)
EveryDefectShows == depth = 0 /\ Impure(lib) => Blamed(lib, st, 5)
=============================================================================
