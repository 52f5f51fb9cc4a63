SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
CONSTANTS
  Emit = TRUE
INVARIANT RefsOk
PROPERTY Isolation
PROPERTY HostKept
PROPERTY OptionsOnly
PROPERTY TaskSees
PROPERTY OtherFrames
PROPERTY Pure
CHECK_DEADLOCK FALSE
