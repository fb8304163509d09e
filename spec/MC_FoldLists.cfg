SPECIFICATION Spec
CONSTANTS
  NMAX = 5
INVARIANTS AlgValid Emit
CHECK_DEADLOCK FALSE
