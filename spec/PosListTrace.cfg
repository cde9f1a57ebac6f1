SPECIFICATION Spec
INVARIANT ListOK
