CONSTANTS
  M = 1
  Threads = 2
  Failures = 1
  Inf = 99
SPECIFICATION Spec
INVARIANTS NotLost NotTwice NotInvented NothingLeft NoStuck
CHECK_DEADLOCK FALSE
