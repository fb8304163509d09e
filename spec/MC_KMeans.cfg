SPECIFICATION Spec
CONSTANTS
  N = 5
  V = 4
  DIM = 1
  K = 2
  EVERY = 3
INVARIANTS Falls Ends2 SeedsApart Emit
CHECK_DEADLOCK FALSE
