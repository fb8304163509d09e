SPECIFICATION Spec
CONSTANTS
  MAXOPS = 6
  EVERY = 60
INVARIANTS FilesOk NoClashSaved NamesOk Emit
CHECK_DEADLOCK FALSE
