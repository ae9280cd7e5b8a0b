SPECIFICATION Spec
CONSTANTS N = 2  MaxJoin = 1  MaxCut = 2  Rounds = 3
INVARIANT Allowed
INVARIANT Agree
INVARIANT NoStuck
INVARIANT Learned
INVARIANT Gone
CHECK_DEADLOCK FALSE
