SPECIFICATION Spec
INVARIANT IterOK
CHECK_DEADLOCK TRUE
