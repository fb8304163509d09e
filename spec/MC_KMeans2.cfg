SPECIFICATION Spec
CONSTANTS
  N = 5
  V = 1
  DIM = 2
  K = 3
  EVERY = 3
INVARIANTS Falls Ends2 SeedsApart Emit
CHECK_DEADLOCK FALSE
