SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 2
  Emit = FALSE
INVARIANTS
  NoRecursion
  Contained
  Deeper
  Compositional
