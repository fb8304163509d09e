SPECIFICATION Spec
CONSTANTS
  N = 5
  V = 2
  C = 5
  EVERY = 7
INVARIANTS RunningSum Whole Centred Deviates Monotone SelectOk Cover Emit
CHECK_DEADLOCK FALSE
