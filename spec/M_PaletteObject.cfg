SPECIFICATION Spec
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
CONSTANT Depth = 3
