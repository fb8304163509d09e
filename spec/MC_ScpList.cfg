SPECIFICATION Spec
CONSTANTS
  DEPTH = 2
  MAXROWS = 3
  EMIT = TRUE
INVARIANTS RowsIntact SplitsPartition FilterComplements ReloadIdempotent Emit
CHECK_DEADLOCK FALSE
