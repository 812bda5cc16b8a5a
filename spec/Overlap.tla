------------------------------ MODULE Overlap ------------------------------
(* Calls that overlap in time.  A process has threads; each is inside a nest of     *)
(* calls (a call-back of one call may make another).  alone: what every call         *)
(* answered when nothing else was going on; nest: for every thread the calls it is    *)
(* in, the innermost one last.  Whoever runs between two steps of a call must find     *)
(* the arguments as the user made them and ordinary arithmetic, and every call must    *)
(* end as it did alone.                                                                 *)
EXTENDS Integers, Sequences
Known(alone, key) == {k \in DOMAIN alone : alone[k].key = key}
Learn(alone, key, res) == IF Known(alone, key) = {} THEN Append(alone, [key |-> key, res |-> res]) ELSE alone
AsAlone(alone, key, res) == \A k \in Known(alone, key) : alone[k].res = res
Enter(nest, t, key) == [nest EXCEPT ![t] = Append(@, key)]
Leave(nest, t) == [nest EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Innermost(nest, t) == nest[t][Len(nest[t])]
Inside(nest, t) == nest[t] # <<>>
\* an end is the end of the innermost call of its thread
EndFits(nest, t, key) == Inside(nest, t) /\ Innermost(nest, t) = key
=============================================================================
