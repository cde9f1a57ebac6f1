SPECIFICATION Spec
CONSTANTS
  MaxNode = 3
  Labels = {97, 200}
INVARIANT NodesOK
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
