CONSTANT Rows = 4
CONSTANT Deep = TRUE
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT WalkIsTheBoundary
INVARIANT NothingFound
INVARIANT HullIsTheSet
INVARIANT CornersAgree
