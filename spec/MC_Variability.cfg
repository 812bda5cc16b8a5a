CONSTANT Top = 6
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANTS Right Ordered Boxes Measure
