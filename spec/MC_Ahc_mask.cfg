SPECIFICATION Spec
CONSTANTS
  N = 4
  V = 1
  M = 2
  EVERY = 2
INVARIANTS Counts Falls Nested SingleIsComponents CompleteIsClique AverageIsMean MaskedLast Follows Emit
CHECK_DEADLOCK FALSE
