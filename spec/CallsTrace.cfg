CHECK_DEADLOCK FALSE
INIT Init
NEXT Step
