SPECIFICATION Spec
CONSTANTS
  EPOCHS = 2
  KILLS = 2
  EVERY = 3
INVARIANTS Uninterrupted Rows NoRepeat Emit
CHECK_DEADLOCK FALSE
