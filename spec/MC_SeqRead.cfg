SPECIFICATION Spec
CONSTANTS
NS = 2
LENS = {1, 3, 5, 7}
BS = {1, 2, 3}
MNS = {1, 2, 3}
MXS = {0, 2, 3, 5}
OVS = {0, 1}
EPOCHS = 2
EVERY = 7
INVARIANTS Enabled PieceLens Once Cover RemOk Emit
CHECK_DEADLOCK FALSE
