CONSTANTS Points = {1, 2, 3, 4} MaxLen = 5
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANTS Invariant Meaning Symmetric
