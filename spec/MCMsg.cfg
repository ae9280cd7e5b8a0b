CONSTANTS
  N = 2
  MaxLen = 3
  Kinds = {"send", "recv", "isend", "irecv", "wait", "barrier"}
SPECIFICATION Spec
INVARIANTS HardSoft StuckAlike
PROPERTY Persist
CHECK_DEADLOCK FALSE
