INIT Init
NEXT Step
CONSTANT Mode = "sound"
CHECK_DEADLOCK FALSE
