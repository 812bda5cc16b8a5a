CONSTANT Max = 3
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANTS Equations Answered Products Pictures
