SPECIFICATION Spec
CONSTANTS Fault = "trim"
CONSTANTS MaxLen = 2
INVARIANT Right
INVARIANT Salted
CHECK_DEADLOCK FALSE
