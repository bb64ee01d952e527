SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Reads = 2
  Emit = FALSE
  Lock = TRUE
  Whole = TRUE
  Advance = "got"
INVARIANTS Correct Emitted
CHECK_DEADLOCK FALSE
