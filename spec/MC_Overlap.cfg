CONSTANTS Calls = 2
N = 2
Nest = 1
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANTS NoFalseBlame OnlyOverlaps EveryDefectShows NestsAreFrames
