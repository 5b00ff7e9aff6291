SPECIFICATION Spec
CONSTANTS Fault = "early"
CONSTANTS Signals = 3 Writes = 2 Starts = 2
INVARIANT Right
CHECK_DEADLOCK FALSE
