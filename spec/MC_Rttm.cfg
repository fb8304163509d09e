SPECIFICATION Spec
CONSTANTS
  DEPTH = 1
  MAXROWS = 2
  NT = 6
  EVERY = 1
INVARIANTS JoinFillsGapsOnly ElimIsExclusive ElimIdempotent Emit
CHECK_DEADLOCK FALSE
