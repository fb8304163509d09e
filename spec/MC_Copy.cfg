SPECIFICATION Spec
CONSTANTS
  N = 4
  NI = 3
  C = 3
  EVERY = 1
INVARIANTS Exactly Never Emit
PROPERTY Halts
CHECK_DEADLOCK FALSE
