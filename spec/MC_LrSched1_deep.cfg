SPECIFICATION Spec
CONSTANTS
  DEPTH = 13
  KIND = 1
  EVERY = 10007
INVARIANTS Bounded Patience InPeriod Emit
CHECK_DEADLOCK FALSE
