SPECIFICATION Spec
CONSTANTS
NMAX = 5
DIAG = {1, 2, 3, 4, 5, 6, 8}
OFF = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
EIG = {0, 1, 2, 3, 4, 5, 6, 8, 12}
EVERY = 31
INVARIANTS OverFloor OverCov Untouched FloorIs Packing Emit
CHECK_DEADLOCK FALSE
