CONSTANT Depth = 3
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANTS NoFalseBlame EveryDefectShows
