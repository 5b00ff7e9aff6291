SPECIFICATION Spec
CONSTANTS Fault = "changes"
CONSTANTS Max = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
