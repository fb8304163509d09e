SPECIFICATION Spec
CONSTANTS
  MODE = "write"
  MAXN = 3
  DEPTH = 0
  EMIT = TRUE
INVARIANTS DeliveredOnce GroupingIrrelevant RangesInside Emit
CHECK_DEADLOCK FALSE
