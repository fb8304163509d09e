SPECIFICATION Spec
CONSTANTS
  NC = 2
  VALS <- VA
  EVERY = 13
INVARIANTS PermOk MaskOk ShiftOk AllBest Emit
CHECK_DEADLOCK FALSE
