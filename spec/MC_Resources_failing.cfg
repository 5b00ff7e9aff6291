SPECIFICATION Spec
CONSTANTS Conns = {"a", "b"}
CONSTANTS Asks = 2
CONSTANTS Fault = "failing"
INVARIANT Owned
PROPERTY LeavesNothing
PROPERTY NoGrowth
CHECK_DEADLOCK FALSE
