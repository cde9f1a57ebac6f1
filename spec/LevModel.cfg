SPECIFICATION Spec
CONSTANTS
  Chars = {1, 2, 3}
  MaxQuery = 3
  MaxN = 2
  MaxWord = 5
  Algs = {"standard", "transposition", "merge_and_split"}
INVARIANTS Exact Prunes WellFormed WindowOK Sound
CHECK_DEADLOCK FALSE
