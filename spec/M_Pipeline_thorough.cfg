INIT Init
NEXT Next
INVARIANTS TableLaw RankLaw ThemeLaw
CHECK_DEADLOCK FALSE
CONSTANTS
  Colours = 6
  Modes = 12
