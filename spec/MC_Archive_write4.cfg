SPECIFICATION Spec
CONSTANTS
  MODE = "write"
  MAXN = 4
  DEPTH = 0
  EMIT = TRUE
INVARIANTS DeliveredOnce GroupingIrrelevant RangesInside Emit
CHECK_DEADLOCK FALSE
