SPECIFICATION Spec
CONSTANTS
  MaxList = 3
  Places = {0, 1}
INVARIANT ListOK
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
