SPECIFICATION Spec
CONSTANTS
  KINDS <- KA
  BS = {0, 1, 4}
  SS = {1, 3}
  QS = {1}
  VALS <- VA
  D = 2
  N1 = 2
  N2 = 1
  EVERY = 37
INVARIANTS RatioOk SymmetricOk OrderOk SingleOk HalfOk FlatOk ChainOk PostOk MixOk StepOk Emit
CHECK_DEADLOCK FALSE
