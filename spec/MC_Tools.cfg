SPECIFICATION Spec
CONSTANTS
MAXS = 3
TS = {0, 8, 14, 33, 40, 61}
NF = 5
EVERY = 13
INVARIANTS IvOk LenOk OrderOk Emit
PROPERTIES NextOk
CHECK_DEADLOCK FALSE
