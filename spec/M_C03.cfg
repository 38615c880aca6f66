INIT DInit
NEXT DNext
INVARIANT Property
CHECK_DEADLOCK FALSE
CONSTANTS
  NumCases <- CasesC03
  Holds <- HoldsC03
