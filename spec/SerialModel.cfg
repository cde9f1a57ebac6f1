SPECIFICATION Spec
CONSTANTS
  Chars = {1, 2}
  MaxLen = 2
  MaxTerms = 3
  Width = 2
  Buffer = 3
INVARIANTS Honest NeverMistaken Durable RoundTrip
CHECK_DEADLOCK FALSE
