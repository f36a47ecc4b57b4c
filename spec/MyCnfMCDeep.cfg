SPECIFICATION Spec
CONSTANTS
  Sorted = TRUE
  AllSpellings = TRUE
  MaxUser = 3
INVARIANTS Right Same
CHECK_DEADLOCK FALSE
