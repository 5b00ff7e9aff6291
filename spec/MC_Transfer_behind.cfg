SPECIFICATION Spec
CONSTANTS Fault = "behind"
CONSTANTS Max = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
