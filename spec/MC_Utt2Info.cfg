SPECIFICATION Spec
CONSTANTS
  DEPTH = 2
  MAXROWS = 3
INVARIANTS RowsIntact SplitsPartition DropIsComplement Emit
CHECK_DEADLOCK FALSE
