SPECIFICATION Spec
CONSTANTS
  N = 7
  EVERY = 100000
INVARIANTS Accepted Limits Covers Rejects Emit
CHECK_DEADLOCK FALSE
