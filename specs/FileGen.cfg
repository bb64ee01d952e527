SPECIFICATION Spec
CONSTANTS
  Handles = {1, 2, 3}
  Bounds = 5
  Steps = 14
CHECK_DEADLOCK FALSE
