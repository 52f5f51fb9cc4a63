SPECIFICATION Spec
CONSTANTS
  Stops = 3
  MaxBurst = 6
INVARIANTS Total NoSuccessOutsidePlay Emit
CHECK_DEADLOCK FALSE
