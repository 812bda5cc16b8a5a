INIT Init
NEXT Step
CONSTANT Mode = "kaucher"
CHECK_DEADLOCK FALSE
