SPECIFICATION Spec
CONSTANTS Fault = "none"
CONSTANTS MaxLen = 2
INVARIANT Right
INVARIANT Salted
CHECK_DEADLOCK FALSE
