SPECIFICATION Spec
CONSTANTS
  NT = 3
  NN = 3
  V = 4
  EVERY = 2
INVARIANTS Covered Rising PavIsIso HullIsPav CostOnHull EerRange Rank Mirror Emit
CHECK_DEADLOCK FALSE
