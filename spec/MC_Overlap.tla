----------------------------- MODULE MC_Overlap -----------------------------
(* Libraries with every small defect of concurrency, N threads that share an        *)
(* argument or not, call-backs in call-backs, and every interleaving of their steps: the verdicts  *)
(* of Overlap blame no library without shared state, and every defective one is        *)
(* blamed under some interleaving - never when the calls do not overlap.               *)
EXTENDS Overlap, FiniteSets, TLC
CONSTANTS Calls, N, Nest
Threads == 1..N
Kinds == {"local",     \* all its state is in the call
          "scratch",   \* a variable of the library written at the start and read at the end
          "reset",     \* a list of the library emptied at the start, filled by some calls, read at the end
          "borrow",    \* the argument is changed and put back
          "slot",      \* the rounding mode to return to is kept in one place
          "busy"}      \* a flag says that a call is under way: a second one is refused
VARIABLES kind, shared, st
vars == <<kind, shared, st>>
\* thread t calls f with object t (or both with object 1); a frame is [arg, pc, loc]
Obj(t) == IF shared THEN 1 ELSE 1 + (t % 2)
Value(a) == a - 1
Key(t) == <<"f", Value(Obj(t))>>
Good(t) == Value(Obj(t))
St0 == [heap |-> <<0, 1>>, frames |-> [t \in Threads |-> <<>>], nest |-> [t \in Threads |-> <<>>], begun |-> [t \in Threads |-> 0], mode |-> [t \in Threads |-> "near"],
        glob |-> 7, list |-> <<>>, slot |-> "near", flag |-> FALSE, bad |-> {}, overlapped |-> FALSE]
Alone == <<[key |-> <<"f", 0>>, res |-> 0], [key |-> <<"f", 1>>, res |-> 1]>>
Top(s, t) == s.frames[t][Len(s.frames[t])]
SetTop(s, t, f) == [s EXCEPT !.frames[t][Len(s.frames[t])] = f]
Others(s, t) == \E u \in Threads : u # t /\ s.frames[u] # <<>>
\* what everybody can see between two steps
Look(s, t) ==
    LET bad == (IF s.heap # <<0, 1>> THEN {"arguments"} ELSE {}) IN [s EXCEPT !.bad = @ \cup bad]
Begin(s, t) ==
    Look([s EXCEPT !.frames[t] = Append(@, [pc |-> 0, loc |-> 0]), !.nest = Enter(@, t, Key(t)), !.begun[t] = @ + 1,
                   !.overlapped = @ \/ Others(s, t) \/ s.frames[t] # <<>>], t)
\* three steps: take up, work, answer
Work(k, s, t) ==
    LET f == Top(s, t) a == Obj(t) v == s.heap[a] IN
    IF f.pc = 0 THEN
        LET s1 == SetTop(s, t, [f EXCEPT !.pc = 1, !.loc = v]) IN
        CASE k = "scratch" -> [s1 EXCEPT !.glob = v]
          [] k = "reset" -> [s1 EXCEPT !.list = <<>>]
          [] k = "borrow" -> [s1 EXCEPT !.heap[a] = 1 - v]
          [] k = "slot" -> [s1 EXCEPT !.slot = s.mode[t], !.mode[t] = "up"]
          [] k = "busy" -> IF s.flag THEN SetTop(s, t, [f EXCEPT !.pc = 9]) ELSE [s1 EXCEPT !.flag = TRUE]
          [] OTHER -> s1
    ELSE
        LET s1 == SetTop(s, t, [f EXCEPT !.pc = 2]) IN
        CASE k = "reset" /\ f.loc = 1 -> [s1 EXCEPT !.list = Append(@, 1)]
          [] OTHER -> s1
Answer(k, s, t) ==
    LET f == Top(s, t) a == Obj(t)
        res == CASE f.pc = 9 -> 99 [] k = "scratch" -> s.glob [] k = "reset" -> IF s.list = <<>> THEN 0 ELSE 1 [] OTHER -> f.loc
        s1 == CASE k = "borrow" -> [s EXCEPT !.heap[a] = f.loc]
                [] k = "slot" -> [s EXCEPT !.mode[t] = s.slot]
                [] k = "busy" /\ f.pc # 9 -> [s EXCEPT !.flag = FALSE]
                [] OTHER -> s
        done == [s1 EXCEPT !.frames[t] = SubSeq(@, 1, Len(@) - 1), !.nest = Leave(@, t)]
        outer == done.frames[t] = <<>>
    IN [done EXCEPT !.bad = @ \cup (IF AsAlone(Alone, Key(t), res) THEN {} ELSE {"answer"})
                              \cup (IF EndFits(s.nest, t, Key(t)) THEN {} ELSE {"recorder"})
                              \cup (IF outer /\ done.mode[t] # "near" THEN {"mode"} ELSE {})]
Step(k, s, t) == IF Top(s, t).pc \in {2, 9} THEN Answer(k, s, t) ELSE Work(k, s, t)
\* a thread begins a call when it is in none, or in a call-back (between the first and the second step)
MayBegin(s, t) == s.begun[t] < Calls /\ (s.frames[t] = <<>> \/ (Len(s.frames[t]) <= Nest /\ Top(s, t).pc = 1))
Succ(k, s) == {Begin(s, t) : t \in {u \in Threads : MayBegin(s, u)}} \cup {Step(k, s, t) : t \in {u \in Threads : s.frames[u] # <<>>}}
RECURSIVE Blamed(_, _, _)
Blamed(k, s, d) == s.bad # {} \/ (d > 0 /\ \E n \in Succ(k, s) : Blamed(k, n, d - 1))
Init == kind \in Kinds /\ shared \in BOOLEAN /\ st = St0
Next == st.bad = {} /\ st' \in Succ(kind, st) /\ UNCHANGED <<kind, shared>>
NoFalseBlame == st.bad # {} => kind # "local"
\* without an overlap nobody notices, except who looks at the arguments during the call
OnlyOverlaps == st.bad # {} => st.overlapped \/ kind = "borrow"
\* the defects that need two different values are not found with a shared argument
Silent == {<<"scratch", TRUE>>, <<"reset", TRUE>>}
EveryDefectShows == st = St0 /\ kind # "local" /\ <<kind, shared>> \notin Silent => Blamed(kind, st, 8)
NestsAreFrames == \A t \in Threads : Len(st.nest[t]) = Len(st.frames[t])
=============================================================================
