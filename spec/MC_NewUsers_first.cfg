SPECIFICATION Spec
CONSTANTS Fault = "first"
CONSTANTS MaxLen = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
