SPECIFICATION Spec
CONSTANTS
  NMAX = 6
INVARIANTS AlgValid Emit
CHECK_DEADLOCK FALSE
