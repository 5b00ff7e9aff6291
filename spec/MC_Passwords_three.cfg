SPECIFICATION Spec
CONSTANTS Fault = "none"
CONSTANTS MaxLen = 3
INVARIANT Right
INVARIANT Salted
CHECK_DEADLOCK FALSE
