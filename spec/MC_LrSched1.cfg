SPECIFICATION Spec
CONSTANTS
  DEPTH = 9
  KIND = 1
  EVERY = 7
INVARIANTS Bounded Patience InPeriod Emit
CHECK_DEADLOCK FALSE
