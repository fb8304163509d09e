SPECIFICATION Spec
CONSTANTS
  N = 2
  MAXLEN = 3
  DEPTH = 4
  MODE = 2
  EVERY = 0
  CFGONLY = FALSE
INVARIANTS NeverStuck InBounds Even EvenSeq Share NoGap ShortFirst Emit
CHECK_DEADLOCK FALSE
