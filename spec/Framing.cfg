SPECIFICATION Spec
CONSTANTS
  Frames = 2
  MaxChunks = 100
  Rich = TRUE
VIEW View
INVARIANTS SameForAnyCut Complete NothingLost
CHECK_DEADLOCK FALSE
