SPECIFICATION Spec
CONSTANTS Fault = "prefix"
CONSTANTS MaxLen = 2
INVARIANT Right
INVARIANT Salted
CHECK_DEADLOCK FALSE
