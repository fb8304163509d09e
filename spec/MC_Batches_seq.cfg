SPECIFICATION Spec
CONSTANTS
  N = 2
  MAXLEN = 4
  DEPTH = 7
  MODE = 3
  EVERY = 0
  CFGONLY = FALSE
INVARIANTS NeverStuck InBounds Even EvenSeq Share NoGap ShortFirst Emit
CHECK_DEADLOCK FALSE
