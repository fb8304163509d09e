SPECIFICATION Spec
CONSTANTS
  DEPTH = 1
  KINDS = {"ndx", "key", "scr"}
  EVERY = 1
  PATTERNS = {1, 2}
INVARIANTS SplitMerge KeepDrop AlignRight LabelKept Emit
CHECK_DEADLOCK FALSE
