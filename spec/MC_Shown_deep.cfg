CONSTANTS Top = 420 Den = 48 N = 2
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANTS Right Twice Odd Order Unique
