SPECIFICATION Spec
CONSTANTS
  NC = 3
  VALS <- VB
  EVERY = 997
INVARIANTS PermOk MaskOk ShiftOk AllBest Emit
CHECK_DEADLOCK FALSE
