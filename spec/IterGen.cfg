SPECIFICATION GSpec
CONSTANTS
  Alg = "standard"
  Terms0 <- T3
  Query <- Q1
  Limit = 1
  Kinds = {"c", "e"}
  Copies = TRUE
INVARIANT LibInv
PROPERTY Frozen
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
