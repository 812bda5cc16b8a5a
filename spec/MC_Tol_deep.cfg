CONSTANT Deep = TRUE
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT BoxInside
INVARIANT ProgramIsTheSet
