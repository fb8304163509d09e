SPECIFICATION Spec
CONSTANTS
  N = 7
  NI = 4
  C = 5
  EVERY = 1
INVARIANTS Exactly Never Emit
PROPERTY Halts
CHECK_DEADLOCK FALSE
