SPECIFICATION Spec
CONSTANTS Fault = "dotdot"
CONSTANTS Max = 3
INVARIANT Contained
INVARIANT Reachable
CHECK_DEADLOCK FALSE
