SPECIFICATION Spec
CONSTANTS Fault = "none"
CONSTANTS MaxLen = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
