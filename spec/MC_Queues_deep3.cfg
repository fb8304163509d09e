SPECIFICATION Spec
CONSTANTS
  W = 3
  MAX = 2
  N = 5
  STARTS = 2
  HIST = 0
  STOPS = TRUE
INVARIANTS Bound OnceOnly InOrder NothingLost AfterStop Emit
CHECK_DEADLOCK FALSE

