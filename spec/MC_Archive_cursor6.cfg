SPECIFICATION Spec
CONSTANTS
  MODE = "cursor"
  MAXN = 3
  DEPTH = 6
  EMIT = TRUE
INVARIANTS DeliveredOnce GroupingIrrelevant RangesInside Emit
CHECK_DEADLOCK FALSE
