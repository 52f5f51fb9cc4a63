SPECIFICATION Spec
CONSTANTS
  Variants = 1
  MaxPeers = 1
  Emitting = FALSE
INVARIANTS OnlyLegitimate OneDebugger Listening NotLeft Reachable
CHECK_DEADLOCK FALSE
