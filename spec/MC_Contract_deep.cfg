CONSTANTS G = 2
Steps = 3
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT NoneLost
