CONSTANTS
    N = 7
    Block = 3
    Rewind = TRUE
    InBuffer = "both"
    Advance = TRUE
SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
