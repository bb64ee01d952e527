SPECIFICATION Spec
CONSTANTS
  Mounts = {1, 2}
  Rows = 3
  Crashes = 2
  OnLocked = "memory"
  Reload = "same"
  Mark = "last"
  Unmark = TRUE
CONSTRAINT Bound
PROPERTY Transparent
INVARIANT Honest
