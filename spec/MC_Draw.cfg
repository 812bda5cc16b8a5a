CONSTANT Depth = 2
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANTS NoFalseBlame EveryDefectShows
