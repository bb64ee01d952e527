SPECIFICATION Spec
CONSTANTS
  Top = {"d", "f", "g"}
  Sub = {"a", "b"}
  MaxDepth = 2
  Emit = FALSE
VIEW StateView
INVARIANTS Refinement UpperIsVisible WhiteoutsAreLower RowsVisible
CHECK_DEADLOCK FALSE
