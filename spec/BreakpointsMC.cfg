SPECIFICATION Spec
CONSTANTS
  MaxSets = 3
  Split = FALSE
INVARIANTS ViewIsTruth FreshIds EventsMatter SameLineSameState RangeRight Replaced Emit
CHECK_DEADLOCK FALSE
