SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 3
  MaxSources = 3
  Emit = FALSE
INVARIANTS
  Tree
  Kept
  Precedence
  Union
PROPERTY Stable
