SPECIFICATION Spec
CONSTANTS Fault = "unchecked"
CONSTANTS Steps = 5
INVARIANT Right
CHECK_DEADLOCK FALSE
