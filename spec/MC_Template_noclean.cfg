SPECIFICATION Spec
CONSTANTS Fault = "noclean"
CONSTANTS Max = 3
INVARIANT Contained
CHECK_DEADLOCK FALSE
