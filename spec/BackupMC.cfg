SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxTxn = 2
  MaxRuns = 2
  MaxEvents = 3
  CheckPurged = TRUE
  UseUUIDs = TRUE
  RecordLast = TRUE
  OldestFirst = TRUE
INVARIANTS RecordsOK RestoreOK LatestOK
CHECK_DEADLOCK FALSE
