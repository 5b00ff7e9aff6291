SPECIFICATION Spec
CONSTANTS Fault = "pwonly"
CONSTANTS Steps = 5
INVARIANT Right
CHECK_DEADLOCK FALSE
