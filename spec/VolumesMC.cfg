SPECIFICATION Spec
CONSTANTS
  N = 2
  Max = 3
  Changes = 2
  Others = 1
  Crashes = 1
  Toggles = 1
  Leftover = TRUE
INVARIANTS NothingBad
PROPERTIES NeverLowered Converges
CHECK_DEADLOCK FALSE
