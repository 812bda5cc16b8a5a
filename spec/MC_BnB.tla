-------------------------------- MODULE MC_BnB --------------------------------
(* Branch and bound as a machine (PSS, PPS, globopt): a work list of cells with    *)
(* lower bounds, a record (upper bound) taken at points, cells deleted when their   *)
(* bound exceeds the record, the cell with the least bound split.  The function     *)
(* and the bounds are any that are valid: the bound of a cell is any value not       *)
(* above the least value in it and, for children, not below the parent's bound.      *)
(* Whenever the process is stopped, the least bound does not exceed the minimum and   *)
(* the record is not below it; when only points are left, they agree.                 *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS N, V
VARIABLES f, list, omega, done, seen
vars == <<f, list, omega, done, seen>>
Pts == 1..N
Min(S) == CHOOSE m \in S : \A y \in S : m <= y
True == Min({f[p] : p \in Pts})
LowMin(lo, hi) == Min({f[p] : p \in lo..hi})
\* a bound is exact on points, anything valid on wider cells, never below the parent's bound
Bounds(lo, hi, parent) == IF lo = hi THEN {f[lo]} ELSE {v \in parent..V : v <= LowMin(lo, hi)}
Init == /\ f \in [Pts -> 1..V] /\ omega = V + 1 /\ done = FALSE
        /\ list \in {{<<1, N, v>>} : v \in 0..V} /\ \A c \in list : c[3] <= LowMin(1, N)
        /\ seen = list
Best == {c \in list : \A d \in list : c[3] <= d[3]}
Next == \/ /\ ~done /\ list # {}
           /\ \E c \in Best :
                 IF c[1] = c[2] THEN /\ done' = TRUE /\ UNCHANGED <<f, list, omega, seen>>
                 ELSE LET mid == (c[1] + c[2]) \div 2 IN
                      \E v1 \in Bounds(c[1], mid, c[3]), v2 \in Bounds(mid + 1, c[2], c[3]),
                         p1 \in c[1]..mid, p2 \in (mid + 1)..c[2] :
                         LET w == Min({omega, f[p1], f[p2]}) IN
                         /\ omega' = w
                         /\ list' = {d \in (list \ {c}) \cup {<<c[1], mid, v1>>, <<mid + 1, c[2], v2>>} : d[3] <= w}
                         /\ seen' = seen \cup {<<c[1], mid, v1>>, <<mid + 1, c[2], v2>>}
                         /\ UNCHANGED <<f, done>>
        \/ done /\ UNCHANGED vars
Bound == IF list = {} THEN omega ELSE Min({c[3] : c \in list})
AnyTime == Bound <= True /\ omega >= True
Exact == done => Bound = True
\* what MinTrace asks of the calls: the least bound follows from the bounds asked for, whatever the function
Accounted == \A p \in Pts : \E c \in seen : p \in c[1]..c[2] /\ c[3] >= Bound
ForEveryFunction == \A g \in [Pts -> 1..V] :
                       (\A c \in seen : \A p \in c[1]..c[2] : g[p] >= c[3]) => Min({g[p] : p \in Pts}) >= (IF Bound < 1 THEN 1 ELSE Bound)
NotLost == \E c \in list : \E p \in c[1]..c[2] : f[p] = True
=============================================================================
