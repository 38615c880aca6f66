INIT TInit
NEXT TNext
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANT Accept <- AcceptC04
