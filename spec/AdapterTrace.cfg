SPECIFICATION TSpec
CONSTANTS
  Quiet = FALSE
  MaxActs = 0
  Mode = "attach"
INVARIANTS Judge
CHECK_DEADLOCK FALSE
