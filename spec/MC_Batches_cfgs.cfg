SPECIFICATION Spec
CONSTANTS
  N = 3
  MAXLEN = 4
  DEPTH = 1
  MODE = 3
  EVERY = 1
  CFGONLY = TRUE
INVARIANTS NeverStuck InBounds Even EvenSeq Share NoGap ShortFirst Emit
CHECK_DEADLOCK FALSE
