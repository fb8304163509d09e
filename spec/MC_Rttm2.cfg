SPECIFICATION Spec
CONSTANTS
  DEPTH = 2
  MAXROWS = 2
  NT = 3
  EVERY = 3
INVARIANTS JoinFillsGapsOnly ElimIsExclusive ElimIdempotent Emit
CHECK_DEADLOCK FALSE
