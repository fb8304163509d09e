SPECIFICATION Spec
CONSTANTS
  N = 5
  V = 2
  M = 0
  EVERY = 3
INVARIANTS Counts Falls Nested SingleIsComponents CompleteIsClique AverageIsMean MaskedLast Follows Emit
CHECK_DEADLOCK FALSE
