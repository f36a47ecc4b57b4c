SPECIFICATION Spec
CONSTANTS
  C = {a, b}
  MaxProc = 3
  DeleteAtOnce = TRUE
INVARIANTS OpsOnlyIfMaintained AtMostOneLoop NothingAfterShutdown MetricsRight
PROPERTY ShutdownEnds
CHECK_DEADLOCK FALSE
