SPECIFICATION Spec
CONSTANTS
  NR = 2
  NS = 2
  LENS = {0, 1, 4}
  TIMES = {0, 1, 2, 4}
  OPS = 4
  EVERY = 97
INVARIANTS Once InOrder CutOk Adjoin Emit
CHECK_DEADLOCK FALSE
