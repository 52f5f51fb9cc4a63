SPECIFICATION Spec
CONSTANTS
  Pairs = TRUE
INVARIANTS RoundTrip Extra Absent NoClash OneKind Report
CHECK_DEADLOCK FALSE
