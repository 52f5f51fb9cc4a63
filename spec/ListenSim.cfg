SPECIFICATION Spec
CONSTANTS
  Variants = 6
  MaxPeers = 4
  Emitting = TRUE
INVARIANTS OnlyLegitimate OneDebugger Listening NotLeft Emit
CHECK_DEADLOCK FALSE
