SPECIFICATION Spec
CONSTANTS
  KINDS <- KA
  DS <- DA
  NX = 3
  PM = 2
  EVERY = 101
INVARIANTS StatsOk RepeatOk FixOk MeanOk WeightOk VarOk Emit
CHECK_DEADLOCK FALSE
