SPECIFICATION Spec
CONSTANTS
  W = 2
  MAX = 1
  N = 9
  STARTS = 2
  HIST = 9
  STOPS = TRUE
INVARIANTS Bound OnceOnly InOrder NothingLost AfterStop Emit
CHECK_DEADLOCK FALSE

