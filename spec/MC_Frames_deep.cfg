SPECIFICATION Spec
CONSTANTS
  N = 7
  V = 2
  C = 7
  EVERY = 40
INVARIANTS RunningSum Whole Centred Deviates Monotone SelectOk Cover Emit
CHECK_DEADLOCK FALSE
