SPECIFICATION Spec
CONSTANTS Fault = "overwrite"
CONSTANTS Max = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
