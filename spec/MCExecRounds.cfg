CONSTANTS
  N = 3
  Rounds = 2
  Same = 1
  Modes = {"sync", "async"}
SPECIFICATION Spec
INVARIANTS NeverStuck Sound
CHECK_DEADLOCK FALSE
