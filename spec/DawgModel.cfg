SPECIFICATION Spec
CONSTANTS
  Chars = {1, 2}
  MaxLen = 2
  MaxTerms = 8
  Dups = TRUE
INVARIANTS Minimal SizeOK Spelling NoDangling AllFreed OnceEach
CHECK_DEADLOCK FALSE
