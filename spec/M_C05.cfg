INIT DInit
NEXT DNext
INVARIANT Property
CHECK_DEADLOCK FALSE
CONSTANTS
  NumCases <- CasesC05
  Holds <- HoldsC05
