SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Depth = 3
  Contents = {"x", "y"}
  Test = "pure"
  Prune = TRUE
INVARIANTS Refines Accepts Disjoint
CHECK_DEADLOCK FALSE
