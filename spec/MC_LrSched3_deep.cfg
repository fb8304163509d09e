SPECIFICATION Spec
CONSTANTS
  DEPTH = 13
  KIND = 3
  EVERY = 10007
INVARIANTS Bounded Patience InPeriod Emit
CHECK_DEADLOCK FALSE
