CONSTANTS
  Procs = {0, 1, 2}
  Keys = {"61", "6162"}
  Vals = {"00", "0001"}
  MaxOps = 2
  Rounds = 2
SPECIFICATION Spec
INVARIANTS LocalOk Agree Emit
CHECK_DEADLOCK FALSE
