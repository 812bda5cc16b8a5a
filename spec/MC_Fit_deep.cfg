CONSTANTS G = 2
D = 3
CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANT PolyIdentities
INVARIANT RangesContain
INVARIANT Smoothing
INVARIANT WeakDuality
INVARIANT PointData
INVARIANT Ordered
