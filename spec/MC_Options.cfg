SPECIFICATION Spec
CONSTANTS
NC = 2
NO = 5
NV = 2
MAXLEN = 4
EVERY = 5
INVARIANTS OneValue Alone Places Last Absent Emit
CHECK_DEADLOCK FALSE
