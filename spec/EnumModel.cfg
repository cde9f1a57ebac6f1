SPECIFICATION Spec
CONSTANTS
  Chars = {1, 2}
  MaxLen = 2
  MaxTerms = 7
INVARIANTS EndAgrees ReadAgrees IterOK
CHECK_DEADLOCK FALSE
