INIT Init
NEXT Next
INVARIANTS Right Sound Bounded JustAsked Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 9
  MaxSchemes = 8
