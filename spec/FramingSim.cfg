SPECIFICATION Spec
CONSTANTS
  Frames = 3
  MaxChunks = 100
  Rich = TRUE
INVARIANTS SameForAnyCut Complete Report
CHECK_DEADLOCK FALSE
