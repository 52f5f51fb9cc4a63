SPECIFICATION TSpec
CONSTANTS
  MaxSends = 0
  MaxActs = 0
  Emitting = FALSE
  Calm = {0}
INVARIANTS TypeOK NoLoss Consistent Judge
CHECK_DEADLOCK FALSE
