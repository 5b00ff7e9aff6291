SPECIFICATION Spec
CONSTANTS Fault = "unauth"
CONSTANTS Steps = 5
INVARIANT Right
CHECK_DEADLOCK FALSE
