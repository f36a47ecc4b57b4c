SPECIFICATION Spec
CONSTANTS
  Edits = 2
  Drifts = 1
  Crashes = 1
  Lives = 2
  PauseAlways = TRUE
INVARIANTS NothingBad OnlyGenerated
PROPERTIES PasswordsStay Truth Converges
CHECK_DEADLOCK FALSE
