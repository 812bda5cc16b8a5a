INIT Init
NEXT Next
CONSTANTS Depth = 3 G = 1
INVARIANT Faithful
CHECK_DEADLOCK FALSE
