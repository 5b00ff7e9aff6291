SPECIFICATION Spec
CONSTANTS Fault = "hupdrops"
CONSTANTS Signals = 3 Writes = 2 Starts = 2
INVARIANT Right
CHECK_DEADLOCK FALSE
