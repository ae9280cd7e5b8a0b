CONSTANTS
  N = 4
  Rounds = 1
  Same = 1
  Modes = {"sync", "async"}
SPECIFICATION Spec
INVARIANTS NeverStuck Sound
CHECK_DEADLOCK FALSE
