CONSTANTS Steps = 7
Deep = TRUE
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT NoneLost
INVARIANT Nested
