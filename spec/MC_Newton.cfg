CONSTANTS Deep = FALSE
Limit = 6
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT Halts
INVARIANT Regular
