SPECIFICATION Spec
CONSTANTS
  DEPTH = 2
  MAXROWS = 3
  NT = 2
  EVERY = 31
INVARIANTS JoinFillsGapsOnly ElimIsExclusive ElimIdempotent Emit
CHECK_DEADLOCK FALSE
