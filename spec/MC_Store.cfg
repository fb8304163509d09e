SPECIFICATION Spec
CONSTANTS
  MAXOPS = 5
  EVERY = 5
INVARIANTS FilesOk NoClashSaved NamesOk Emit
CHECK_DEADLOCK FALSE
