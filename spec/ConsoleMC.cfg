SPECIFICATION Spec
CONSTANTS
  MaxPieces = 4
CONSTANTS
  Emit = TRUE
INVARIANTS ExprTyped SameName Blanks Apart Kinds
CHECK_DEADLOCK FALSE
