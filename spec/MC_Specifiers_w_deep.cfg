SPECIFICATION Spec
CONSTANTS
  N = 4
  KIND = "w"
  EVERY = 1
INVARIANTS ROrder WOrder Names Default Emit
CHECK_DEADLOCK FALSE
