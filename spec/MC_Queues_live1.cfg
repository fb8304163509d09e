SPECIFICATION Spec
CONSTANTS
  W = 1
  MAX = 2
  N = 4
  STARTS = 1
  HIST = 0
  STOPS = FALSE
INVARIANTS Bound OnceOnly InOrder NothingLost AfterStop Emit
CHECK_DEADLOCK FALSE
PROPERTIES ComesToEnd
