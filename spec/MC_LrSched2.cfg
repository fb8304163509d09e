SPECIFICATION Spec
CONSTANTS
  DEPTH = 9
  KIND = 2
  EVERY = 7
INVARIANTS Bounded Patience InPeriod Emit
CHECK_DEADLOCK FALSE
