INIT Init
NEXT Next
INVARIANTS Right Sound Bounded JustAsked Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 8
  MaxSchemes = 7
