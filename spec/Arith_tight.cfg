INIT Init
NEXT Step
CONSTANT Mode = "tight"
CHECK_DEADLOCK FALSE
