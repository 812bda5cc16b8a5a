CONSTANTS MaxDepth = 7
Modes = {"down", "up", "nearest"}
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT Restored
