SPECIFICATION Spec
CONSTANTS Fault = "nosep"
CONSTANTS Max = 3
INVARIANT Contained
INVARIANT Reachable
CHECK_DEADLOCK FALSE
