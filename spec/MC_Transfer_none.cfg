SPECIFICATION Spec
CONSTANTS Fault = "none"
CONSTANTS Max = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
