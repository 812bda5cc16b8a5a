CONSTANTS Calls = 4
N = 3
Nest = 2
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANTS NoFalseBlame OnlyOverlaps EveryDefectShows NestsAreFrames
