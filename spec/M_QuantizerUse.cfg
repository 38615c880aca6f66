INIT Init
NEXT Next
INVARIANTS OneSource LikeNew Emit
CHECK_DEADLOCK FALSE
CONSTANT Depth = 3
