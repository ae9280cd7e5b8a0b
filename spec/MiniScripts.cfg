CONSTANTS
  N = 3
  MaxOps = 3
  MaxSplits = 2
  Explore = TRUE
SPECIFICATION Spec
INVARIANTS Finishes SameResults NumbersDiffer Emit
CHECK_DEADLOCK FALSE
