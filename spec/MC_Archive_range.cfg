SPECIFICATION Spec
CONSTANTS
  MODE = "range"
  MAXN = 3
  DEPTH = 0
  EMIT = TRUE
INVARIANTS DeliveredOnce GroupingIrrelevant RangesInside Emit
CHECK_DEADLOCK FALSE
