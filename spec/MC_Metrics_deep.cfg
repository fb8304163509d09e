SPECIFICATION Spec
CONSTANTS
  NT = 5
  NN = 4
  V = 5
  EVERY = 5
INVARIANTS Covered Rising PavIsIso HullIsPav CostOnHull EerRange Rank Mirror Emit
CHECK_DEADLOCK FALSE
