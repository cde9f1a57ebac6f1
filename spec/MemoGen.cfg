SPECIFICATION GSpec
CONSTANTS
  Threads = {1, 2}
  Chars = {1, 2}
  MaxLen = 2
  MaxTotal = 6
  Alg = "standard"
INVARIANT MemoOK
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
