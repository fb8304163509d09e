SPECIFICATION Spec
CONSTANTS
  MODE = "cursor"
  MAXN = 3
  DEPTH = 4
  EMIT = TRUE
INVARIANTS DeliveredOnce GroupingIrrelevant RangesInside Emit
CHECK_DEADLOCK FALSE
