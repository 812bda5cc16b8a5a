CONSTANTS Top = 2 Grid = 3
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANTS SameSet Cleared NormalForm Exact
