SPECIFICATION Spec
CONSTANTS
  Times = {1, 2, 3, 4}
  MaxPoint = 6
  Tries = 3
  SameDir = TRUE
  NotLater = TRUE
  MarkLast = TRUE
  GiveUpError = TRUE
INVARIANTS MarkedOK SuccessOK
CHECK_DEADLOCK FALSE
