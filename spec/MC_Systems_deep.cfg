CONSTANTS MaxN = 4 Steps = 5
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANTS NeumaierClaim SharyClaim ToftClaim DiagClaim
