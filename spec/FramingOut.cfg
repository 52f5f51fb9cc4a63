SPECIFICATION Spec
CONSTANTS
  N = 3
  Locked = TRUE
INVARIANTS NotInterleaved Numbered InOrder
PROPERTY AllSent
CHECK_DEADLOCK FALSE
