SPECIFICATION Spec
CONSTANTS Fault = "none"
CONSTANTS MaxLen = 4
INVARIANT Right
CHECK_DEADLOCK FALSE
