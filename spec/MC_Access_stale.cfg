SPECIFICATION Spec
CONSTANTS Fault = "stale"
CONSTANTS Steps = 5
INVARIANT Right
CHECK_DEADLOCK FALSE
