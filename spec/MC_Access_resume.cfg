SPECIFICATION Spec
CONSTANTS Fault = "resume"
CONSTANTS Steps = 5
INVARIANT Right
CHECK_DEADLOCK FALSE
