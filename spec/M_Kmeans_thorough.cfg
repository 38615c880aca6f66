INIT Init
NEXT Next
INVARIANTS NothingLost NeverWorse MeansOnly
CHECK_DEADLOCK FALSE
CONSTANTS
  Colours = 8
  Rounds = 5
