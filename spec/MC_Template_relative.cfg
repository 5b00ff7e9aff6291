SPECIFICATION Spec
CONSTANTS Fault = "relative"
CONSTANTS Max = 3
INVARIANT Contained
INVARIANT Reachable
CHECK_DEADLOCK FALSE
