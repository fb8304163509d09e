SPECIFICATION Spec
CONSTANTS
  W = 1
  MAX = 1
  N = 9
  STARTS = 2
  HIST = 13
  STOPS = TRUE
INVARIANTS Bound OnceOnly InOrder NothingLost AfterStop Emit
CHECK_DEADLOCK FALSE

