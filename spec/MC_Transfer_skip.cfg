SPECIFICATION Spec
CONSTANTS Fault = "skip"
CONSTANTS Max = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
