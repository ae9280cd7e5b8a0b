CONSTANTS
  N = 2
  MaxJoin = 1
  PerRound = 2
  Rounds = 2
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
