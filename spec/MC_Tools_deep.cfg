SPECIFICATION Spec
CONSTANTS
MAXS = 4
TS = {0, 8, 14, 33, 40, 61}
NF = 5
EVERY = 97
INVARIANTS IvOk LenOk OrderOk Emit
PROPERTIES NextOk
CHECK_DEADLOCK FALSE
