CONSTANTS
  M = 1
  Threads = 1
  Failures = 1
  Inf = 99
SPECIFICATION Spec
INVARIANTS NotLost NotTwice NotInvented NothingLeft NoStuck
PROPERTY Received_
CHECK_DEADLOCK FALSE
