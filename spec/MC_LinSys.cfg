CONSTANTS G = 2
M = 2
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT Laws
