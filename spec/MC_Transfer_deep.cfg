SPECIFICATION Spec
CONSTANTS Fault = "deep"
CONSTANTS Max = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
