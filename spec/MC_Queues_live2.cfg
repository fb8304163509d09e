SPECIFICATION Spec
CONSTANTS
  W = 2
  MAX = 1
  N = 3
  STARTS = 1
  HIST = 0
  STOPS = FALSE
INVARIANTS Bound OnceOnly InOrder NothingLost AfterStop Emit
CHECK_DEADLOCK FALSE
PROPERTIES ComesToEnd
