SPECIFICATION GSpec
CONSTANTS
  Files = {0, 1}
  Contents <- C2
INVARIANT SavedOK
PROPERTY Stable
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
