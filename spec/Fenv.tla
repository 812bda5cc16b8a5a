--------------------------------- MODULE Fenv ---------------------------------
(* The rounding mode of the process.  Library calls change it inside contexts,   *)
(* may call back into user code outside of them, and end normally or by raising;  *)
(* leaving a call unwinds its contexts.                                           *)
EXTENDS Integers, Sequences
CONSTANTS MaxDepth, Modes
VARIABLES mode, stack      \* stack of frames: "call", "user", or the mode a context will restore
vars == <<mode, stack>>
Nearest == "nearest"
Init == mode = Nearest /\ stack = <<>>
Top == IF stack = <<>> THEN "user" ELSE stack[Len(stack)]
Idle == Top = "user"                                        \* user code runs
InLib == Top # "user"
Call == Idle /\ Len(stack) < MaxDepth /\ stack' = Append(stack, "call") /\ UNCHANGED mode
Enter(m) == InLib /\ Len(stack) < MaxDepth /\ stack' = Append(stack, mode) /\ mode' = m
Exit == InLib /\ Top # "call" /\ mode' = Top /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
Return == InLib /\ Top = "call" /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED mode
CallBack == InLib /\ Top = "call" /\ Len(stack) < MaxDepth /\ stack' = Append(stack, "user") /\ UNCHANGED mode
UserReturns == stack # <<>> /\ Top = "user" /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED mode
\* an exception unwinds one frame at a time; every context on the way restores its mode
Raise == stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ mode' = IF Top \in {"call", "user"} THEN mode ELSE Top
Next == Call \/ (\E m \in Modes : Enter(m)) \/ Exit \/ Return \/ CallBack \/ UserReturns \/ Raise
Restored == Idle => mode = Nearest
=============================================================================
