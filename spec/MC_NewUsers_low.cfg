SPECIFICATION Spec
CONSTANTS Fault = "low"
CONSTANTS MaxLen = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
