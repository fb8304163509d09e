SPECIFICATION Spec
CONSTANTS
  N = 4
  V = 2
  M = 2
  EVERY = 3
INVARIANTS Counts Falls Nested SingleIsComponents CompleteIsClique AverageIsMean MaskedLast Follows Emit
CHECK_DEADLOCK FALSE
