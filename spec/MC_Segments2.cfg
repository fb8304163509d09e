SPECIFICATION Spec
CONSTANTS
  DEPTH = 1
  MAXROWS = 3
  EVERY = 2
  NT = 2
  NN = 1
INVARIANTS AdjacentKeepsTime SplitsPartition FilterComplement MaskIsTime Emit
CHECK_DEADLOCK FALSE
