SPECIFICATION Spec
CONSTANTS
  W = 2
  MAX = 2
  N = 4
  STARTS = 2
  HIST = 0
  STOPS = TRUE
INVARIANTS Bound OnceOnly InOrder NothingLost AfterStop Emit
CHECK_DEADLOCK FALSE

