SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Depth = 3
  Contents = {1, 2, 3, 4}
  Files = {1, 2, 3}
  Handles = {1, 2}
  Steps = 12
CHECK_DEADLOCK FALSE
