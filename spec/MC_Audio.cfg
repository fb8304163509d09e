SPECIFICATION Spec
CONSTANTS
  NR = 2
  NS = 2
  LENS = {1, 3}
  TIMES = {0, 1, 2}
  OPS = 3
  EVERY = 11
INVARIANTS Once InOrder CutOk Adjoin Emit
CHECK_DEADLOCK FALSE
