CONSTANTS Steps = 5
Deep = FALSE
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT NoneLost
INVARIANT Nested
