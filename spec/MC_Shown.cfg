CONSTANTS Top = 40 Den = 7 N = 2
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANTS Right Twice Odd Order Unique
