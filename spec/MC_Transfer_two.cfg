SPECIFICATION Spec
CONSTANTS Fault = "none"
CONSTANTS Max = 2
INVARIANT Right
CHECK_DEADLOCK FALSE
