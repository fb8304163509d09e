SPECIFICATION Spec
CONSTANTS
  DEPTH = 1
  MAXROWS = 3
  NT = 3
  EVERY = 7
INVARIANTS JoinFillsGapsOnly ElimIsExclusive ElimIdempotent Emit
CHECK_DEADLOCK FALSE
