SPECIFICATION Spec
CONSTANTS Fault = "none"
CONSTANTS Steps = 5
INVARIANT Right
CHECK_DEADLOCK FALSE
