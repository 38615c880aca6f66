INIT Init
NEXT Next
INVARIANTS Closed Answered Emit
CHECK_DEADLOCK FALSE
CONSTANT Depth = 3
