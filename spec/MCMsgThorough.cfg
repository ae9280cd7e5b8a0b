CONSTANTS
  N = 3
  MaxLen = 2
  Kinds = {"send", "recv", "isend", "irecv", "wait"}
SPECIFICATION Spec
INVARIANTS HardSoft StuckAlike
PROPERTY Persist
CHECK_DEADLOCK FALSE
