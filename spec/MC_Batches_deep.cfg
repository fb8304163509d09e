SPECIFICATION Spec
CONSTANTS
  N = 3
  MAXLEN = 3
  DEPTH = 11
  MODE = 3
  EVERY = 0
  CFGONLY = FALSE
INVARIANTS NeverStuck InBounds Even EvenSeq Share NoGap ShortFirst Emit
CHECK_DEADLOCK FALSE
