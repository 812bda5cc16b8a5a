CONSTANT Deep = TRUE
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT RowsAreTheSet
INVARIANT CornersAgree
