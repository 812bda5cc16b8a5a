CONSTANTS N = 5
V = 3
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT AnyTime
INVARIANT Exact
INVARIANT NotLost
INVARIANT Accounted
INVARIANT ForEveryFunction
