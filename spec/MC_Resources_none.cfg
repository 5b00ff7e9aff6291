SPECIFICATION Spec
CONSTANTS Conns = {"a", "b"}
CONSTANTS Asks = 2
CONSTANTS Fault = "none"
INVARIANT Owned
PROPERTY LeavesNothing
PROPERTY NoGrowth
CHECK_DEADLOCK FALSE
