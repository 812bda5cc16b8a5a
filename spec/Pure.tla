-------------------------------- MODULE Pure --------------------------------
(* A process that uses the library.  heap: what every object the user holds      *)
(* currently equals; held: results the user has received and keeps; world: state  *)
(* of the process that calls could leave behind; memo: what every call returned    *)
(* for given argument values.  Between calls the user may write into objects,      *)
(* replace them by equal new ones, and write into results; the library may not     *)
(* touch any of them, and results depend on nothing but the argument values.       *)
EXTENDS Integers, Sequences
PKey(f, args, heap) == <<f, [i \in DOMAIN args |-> heap[args[i]]]>>
Recall(memo, key) == {k \in DOMAIN memo : memo[k].key = key}
SameResult(memo, key, res) == \A k \in Recall(memo, key) : memo[k].res = res
Remember(memo, key, res) == IF Recall(memo, key) = {} THEN Append(memo, [key |-> key, res |-> res]) ELSE memo
\* the objects, results and parts of the world that differ from what they should be
Moved(s, t) == {x \in DOMAIN s : x \notin DOMAIN t \/ s[x] # t[x]}
CallVerdict(s, f, args, res, heap2, held2, world2) ==
    [args |-> Moved(s.heap, heap2), held |-> Moved(s.held, held2), world |-> Moved(s.world, world2),
     same |-> SameResult(s.memo, PKey(f, args, s.heap), res)]
Blameless(v) == v.args = {} /\ v.held = {} /\ v.world = {} /\ v.same
=============================================================================
