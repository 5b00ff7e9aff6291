SPECIFICATION Spec
CONSTANTS Fault = "anyaddr"
CONSTANTS Steps = 5
INVARIANT Right
CHECK_DEADLOCK FALSE
