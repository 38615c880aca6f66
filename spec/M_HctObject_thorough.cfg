SPECIFICATION Spec
INVARIANTS Promises Emit
CHECK_DEADLOCK FALSE
CONSTANT Depth = 4
