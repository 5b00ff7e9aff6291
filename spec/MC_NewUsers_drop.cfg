SPECIFICATION Spec
CONSTANTS Fault = "drop"
CONSTANTS MaxLen = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
