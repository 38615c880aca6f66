INIT DInit
NEXT DNext
INVARIANT Property
CHECK_DEADLOCK FALSE
CONSTANTS
  NumCases <- CasesC04
  Holds <- HoldsC04
