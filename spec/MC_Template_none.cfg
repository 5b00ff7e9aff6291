SPECIFICATION Spec
CONSTANTS Fault = "none"
CONSTANTS Max = 3
INVARIANT Contained
INVARIANT Reachable
CHECK_DEADLOCK FALSE
