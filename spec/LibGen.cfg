SPECIFICATION GSpec
CONSTANTS
  Vocabulary <- W3
  MaxSeq = 2
  DictIds = {1, 2}
  FileIds = {1}
INVARIANT LibInv
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
