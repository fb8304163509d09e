SPECIFICATION Spec
CONSTANTS
  KINDS <- KA
  DS <- DB
  NX = 3
  PM = 1
  EVERY = 7
INVARIANTS StatsOk RepeatOk FixOk MeanOk WeightOk VarOk Emit
CHECK_DEADLOCK FALSE
