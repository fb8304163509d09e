SPECIFICATION Spec
CONSTANTS
NC = 3
NO = 4
NV = 2
MAXLEN = 4
EVERY = 11
INVARIANTS OneValue Alone Places Last Absent Emit
CHECK_DEADLOCK FALSE
