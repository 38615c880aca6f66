INIT DInit
NEXT DNext
INVARIANT Property
CHECK_DEADLOCK FALSE
CONSTANTS
  NumCases <- CasesC01
  Holds <- HoldsC01
