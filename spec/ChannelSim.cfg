SPECIFICATION Spec
CONSTANTS
  MaxSends = 3
  MaxActs = 9
  Emitting = TRUE
  Calm = {0, 3, 5, 7}
INVARIANTS TypeOK NoLoss Consistent Emit
CHECK_DEADLOCK FALSE
