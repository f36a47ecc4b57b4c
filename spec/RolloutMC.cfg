SPECIFICATION Spec
CONSTANTS
  N = 3
  Changes = 2
  Fails = 1
  Crashes = 0
  OptLock = TRUE
  GenGate = TRUE
INVARIANTS NothingBad OneAtATime
PROPERTY RolloutFinishes
CHECK_DEADLOCK FALSE
