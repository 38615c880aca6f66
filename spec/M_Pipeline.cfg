INIT Init
NEXT Next
INVARIANTS TableLaw RankLaw ThemeLaw
CHECK_DEADLOCK FALSE
CONSTANTS
  Colours = 4
  Modes = 2
