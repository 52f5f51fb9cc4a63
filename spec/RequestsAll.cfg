SPECIFICATION Spec
CONSTANTS
  Stops = 3
  MaxBurst = 2
INVARIANTS Total NoSuccessOutsidePlay
VIEW View
CHECK_DEADLOCK FALSE
