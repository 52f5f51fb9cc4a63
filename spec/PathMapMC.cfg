SPECIFICATION Spec
CONSTANTS
  MaxRoot = 2
  MaxPath = 3
  MaxMaps = 2
INVARIANTS
  SameInText
  NoMapsNoChange
  OutsideUntouched
  RoundTrip
  Symmetric
  FirstDecides
  KeepsName
CHECK_DEADLOCK FALSE
