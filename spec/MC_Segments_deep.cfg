SPECIFICATION Spec
CONSTANTS
  DEPTH = 2
  MAXROWS = 2
  EVERY = 9
  NT = 2
  NN = 1
INVARIANTS AdjacentKeepsTime SplitsPartition FilterComplement MaskIsTime Emit
CHECK_DEADLOCK FALSE
