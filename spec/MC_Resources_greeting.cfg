SPECIFICATION Spec
CONSTANTS Conns = {"a", "b"}
CONSTANTS Asks = 2
CONSTANTS Fault = "greeting"
INVARIANT Owned
PROPERTY LeavesNothing
PROPERTY NoGrowth
CHECK_DEADLOCK FALSE
