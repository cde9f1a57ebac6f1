SPECIFICATION Spec
CONSTANTS
  Chars = {1, 2}
  MaxNodes = 4
INVARIANTS ShapeOK Agree
CHECK_DEADLOCK FALSE
