SPECIFICATION Spec
CONSTANTS
  N = 5
  EVERY = 1
INVARIANTS Accepted Limits Covers Rejects Emit
CHECK_DEADLOCK FALSE
