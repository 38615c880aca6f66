INIT DInit
NEXT DNext
INVARIANT Property
CHECK_DEADLOCK FALSE
CONSTANTS
  NumCases <- CasesC02
  Holds <- HoldsC02
