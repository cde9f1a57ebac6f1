SPECIFICATION Spec
INVARIANT NodesOK
