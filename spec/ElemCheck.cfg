CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT Laws
