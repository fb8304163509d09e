SPECIFICATION Spec
CONSTANTS
  N = 6
  V = 5
  DIM = 1
  K = 3
  EVERY = 40
INVARIANTS Falls Ends2 SeedsApart Emit
CHECK_DEADLOCK FALSE
