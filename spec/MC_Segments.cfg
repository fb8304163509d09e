SPECIFICATION Spec
CONSTANTS
  DEPTH = 1
  MAXROWS = 2
  EVERY = 1
  NT = 4
  NN = 2
INVARIANTS AdjacentKeepsTime SplitsPartition FilterComplement MaskIsTime Emit
CHECK_DEADLOCK FALSE
