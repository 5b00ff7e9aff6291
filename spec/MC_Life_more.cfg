SPECIFICATION Spec
CONSTANTS Fault = "none"
CONSTANTS Signals = 5 Writes = 3 Starts = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
PROPERTY Ends
