CONSTANTS G = 1
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT WeakDuality
