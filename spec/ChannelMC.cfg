SPECIFICATION Spec
CONSTANTS
  MaxSends = 1
  MaxActs = 3
  Emitting = FALSE
  Calm = {0}
INVARIANTS TypeOK NoLoss Consistent
PROPERTIES Ends1 Told
CHECK_DEADLOCK FALSE
