SPECIFICATION Spec
CONSTANTS
  Chars = {1, 2}
  MaxTermLen = 2
  MaxTerms = 3
  MaxQuery = 2
  MaxN = 2
  Algs = {"standard", "transposition", "merge_and_split"}
INVARIANTS EndAgrees ReadAgrees Alive IterOK
CHECK_DEADLOCK FALSE
