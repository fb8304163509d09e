SPECIFICATION Spec
CONSTANTS
  N = 3
  KIND = "r"
  EVERY = 1
INVARIANTS ROrder WOrder Names Default Emit
CHECK_DEADLOCK FALSE
