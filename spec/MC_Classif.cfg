SPECIFICATION Spec
CONSTANTS
NB = 2
NS = 3
XS = {0, 1, 3}
EVERY = 11
INVARIANTS PoolOk BalOk PosOk Emit
PROPERTIES NextOk
CHECK_DEADLOCK FALSE
