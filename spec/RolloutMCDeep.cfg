SPECIFICATION Spec
CONSTANTS
  N = 3
  Changes = 3
  Fails = 1
  Crashes = 1
  OptLock = TRUE
  GenGate = TRUE
INVARIANTS NothingBad OneAtATime

CHECK_DEADLOCK FALSE
