CONSTANT Rows = 2
CONSTANT Deep = FALSE
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT WalkIsTheBoundary
INVARIANT NothingFound
INVARIANT HullIsTheSet
INVARIANT CornersAgree
