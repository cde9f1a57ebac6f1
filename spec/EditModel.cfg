SPECIFICATION Spec
CONSTANTS
  Chars = {1, 2}
  MaxLen = 4
INVARIANTS ScriptOK Reachable NoShortcut BetweenOK Identity Symmetry Invariance TriangleOK LengthBounds Order Renaming
CHECK_DEADLOCK FALSE
