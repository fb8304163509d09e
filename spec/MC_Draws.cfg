SPECIFICATION Spec
CONSTANTS
  N = 3
  NC = 2
  MAXB = 4
INVARIANTS Equivalent Emit
CHECK_DEADLOCK FALSE
