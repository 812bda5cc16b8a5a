CONSTANTS MaxIter = 2
MaxCal = 2
Sims = 2
CHECK_DEADLOCK TRUE
INIT Init
NEXT Next
INVARIANT Laws
