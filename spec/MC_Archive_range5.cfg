SPECIFICATION Spec
CONSTANTS
  MODE = "range"
  MAXN = 5
  DEPTH = 0
  EMIT = TRUE
INVARIANTS DeliveredOnce GroupingIrrelevant RangesInside Emit
CHECK_DEADLOCK FALSE
