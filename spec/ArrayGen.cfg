CONSTANT Depth = 14
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT GenInv
