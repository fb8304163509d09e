SPECIFICATION Spec
CONSTANTS
  N = 4
  MAXLEN = 2
  DEPTH = 9
  MODE = 1
  EVERY = 0
  CFGONLY = FALSE
INVARIANTS NeverStuck InBounds Even EvenSeq Share NoGap ShortFirst Emit
CHECK_DEADLOCK FALSE
