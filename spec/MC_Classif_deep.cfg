SPECIFICATION Spec
CONSTANTS
NB = 3
NS = 3
XS = {0, 2}
EVERY = 23
INVARIANTS PoolOk BalOk PosOk Emit
PROPERTIES NextOk
CHECK_DEADLOCK FALSE
