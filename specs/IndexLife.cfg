SPECIFICATION Spec
CONSTANTS
  Accept = "marker"
  Extend = "first"
  Restat = FALSE
  MaxChanges = 3
  MaxMounts = 3
  Emit = FALSE
INVARIANT Transparent
INVARIANT NeverPart
CHECK_DEADLOCK FALSE
