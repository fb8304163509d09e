SPECIFICATION Spec
CONSTANTS
  DEPTH = 2
  KINDS = {"ndx", "key", "scr"}
  EVERY = 41
  PATTERNS = {1}
INVARIANTS SplitMerge KeepDrop AlignRight LabelKept Emit
CHECK_DEADLOCK FALSE
