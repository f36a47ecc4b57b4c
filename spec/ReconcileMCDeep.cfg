SPECIFICATION Spec
CONSTANTS
  Edits = 3
  Drifts = 2
  Crashes = 1
  Lives = 2
  PauseAlways = TRUE
INVARIANTS NothingBad OnlyGenerated
PROPERTIES PasswordsStay Truth Converges
CHECK_DEADLOCK FALSE
