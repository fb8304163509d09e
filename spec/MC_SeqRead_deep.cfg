SPECIFICATION Spec
CONSTANTS
NS = 3
LENS = {1, 2, 4, 7}
BS = {1, 3}
MNS = {1, 2}
MXS = {0, 2, 4}
OVS = {0, 1}
EPOCHS = 1
EVERY = 5
INVARIANTS Enabled PieceLens Once Cover RemOk Emit
CHECK_DEADLOCK FALSE
