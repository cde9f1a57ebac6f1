SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Chars = {1, 2}
  MaxLen = 2
  Alg = "transposition"
INVARIANTS Exclusive MemoOK ResultOK
