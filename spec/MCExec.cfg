CONSTANTS
  N = 3
  Rounds = 1
  Same = 2
  Modes = {"sync", "async"}
SPECIFICATION Spec
INVARIANTS NeverStuck Sound
CHECK_DEADLOCK FALSE
