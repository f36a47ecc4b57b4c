CONSTANTS
  N = 3
  WithExt = FALSE
  Fresh = FALSE
  MaxTxn = 1
  MaxFault = 1
  MaxMark = 0
  MaxWipe = 0
  MaxPurge = 0
  MaxErrant = 0
  Reckless = FALSE
SPECIFICATION Spec
INVARIANT NoViolation
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
