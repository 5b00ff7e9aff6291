SPECIFICATION Spec
CONSTANTS Fault = "fold"
CONSTANTS MaxLen = 2
INVARIANT Right
INVARIANT Salted
CHECK_DEADLOCK FALSE
