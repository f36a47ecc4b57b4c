CONSTANTS
  N = 3
  WithExt = TRUE
  Fresh = TRUE
  MaxTxn = 1
  MaxFault = 1
  MaxMark = 1
  MaxWipe = 0
  MaxPurge = 0
  MaxErrant = 0
  Reckless = FALSE
SPECIFICATION Spec
INVARIANT NoViolation
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
