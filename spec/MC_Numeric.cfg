SPECIFICATION Spec
CONSTANTS
NMAX = 3
DIAG = {1, 2, 3, 4}
OFF = {0, 1, 2, 3, 4, 5, 6}
EIG = {0, 1, 2, 3, 4, 6, 8}
EVERY = 7
INVARIANTS OverFloor OverCov Untouched FloorIs Packing Emit
CHECK_DEADLOCK FALSE
