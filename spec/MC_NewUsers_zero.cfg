SPECIFICATION Spec
CONSTANTS Fault = "zero"
CONSTANTS MaxLen = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
