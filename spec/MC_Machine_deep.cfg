INIT Init
NEXT Next
CONSTANTS Depth = 3 G = 2
INVARIANT Faithful
CHECK_DEADLOCK FALSE
