SPECIFICATION Spec
CONSTANTS
  MaxSets = 3
INVARIANTS
  OnePerPath
  StopsAreAsked
  ShownAsNamed
  Emit
CHECK_DEADLOCK FALSE
