CONSTANT Depth = 5
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANTS NoFalseBlame EveryDefectShows
