SPECIFICATION Spec
CONSTANTS
  KINDS <- KA
  BS = {0, 1, 4}
  SS = {1, 3}
  QS = {1, 2}
  VALS <- VB
  D = 1
  N1 = 3
  N2 = 2
  EVERY = 41
INVARIANTS RatioOk SymmetricOk OrderOk SingleOk HalfOk FlatOk ChainOk PostOk MixOk StepOk Emit
CHECK_DEADLOCK FALSE
