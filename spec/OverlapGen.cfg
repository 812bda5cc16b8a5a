CONSTANT Depth = 24
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT GenInv
