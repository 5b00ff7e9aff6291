SPECIFICATION Spec
CONSTANTS Fault = "nul"
CONSTANTS MaxLen = 2
INVARIANT Right
INVARIANT Salted
CHECK_DEADLOCK FALSE
