SPECIFICATION Spec
CONSTANTS
  MaxList = 4
  Places = {0, 1}
INVARIANT ListOK
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
