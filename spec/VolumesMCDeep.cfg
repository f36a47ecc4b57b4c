SPECIFICATION Spec
CONSTANTS
  N = 3
  Max = 3
  Changes = 3
  Others = 1
  Crashes = 2
  Toggles = 1
  Leftover = TRUE
INVARIANTS NothingBad
PROPERTIES NeverLowered Converges
CHECK_DEADLOCK FALSE
