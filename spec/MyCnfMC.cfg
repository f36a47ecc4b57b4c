SPECIFICATION Spec
CONSTANTS
  Sorted = TRUE
  AllSpellings = TRUE
  MaxUser = 2
INVARIANTS Right Same
CHECK_DEADLOCK FALSE
