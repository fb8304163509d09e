SPECIFICATION Spec
CONSTANTS
  DEPTH = 13
  KIND = 2
  EVERY = 10007
INVARIANTS Bounded Patience InPeriod Emit
CHECK_DEADLOCK FALSE
