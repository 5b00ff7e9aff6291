SPECIFICATION Spec
CONSTANTS Fault = "none"
CONSTANTS Signals = 3 Writes = 2 Starts = 2
INVARIANT Right
CHECK_DEADLOCK FALSE
PROPERTY Ends
