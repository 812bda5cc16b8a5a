CONSTANTS G = 2
Steps = 2
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT NoneLost
