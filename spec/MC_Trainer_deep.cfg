SPECIFICATION Spec
CONSTANTS
  EPOCHS = 4
  KILLS = 3
  EVERY = 1000
INVARIANTS Uninterrupted Rows NoRepeat Emit
CHECK_DEADLOCK FALSE
