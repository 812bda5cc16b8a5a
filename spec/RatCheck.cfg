INIT Init
NEXT Next
CONSTANTS N = 9  D = 6
INVARIANTS Field Order Whole Float Infinite
CHECK_DEADLOCK FALSE
