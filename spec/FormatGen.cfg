SPECIFICATION Spec
CONSTANTS
  Chars = {1, 2}
  MaxNodes = 4
INVARIANTS Emit Lang
ACTION_CONSTRAINT Prune
CHECK_DEADLOCK FALSE
