SPECIFICATION Spec
CONSTANTS Fault = "scheme"
CONSTANTS MaxLen = 2
INVARIANT Right
INVARIANT Salted
CHECK_DEADLOCK FALSE
