SPECIFICATION Spec
CONSTANTS MaxReqs = 3
CONSTANTS MaxEntries = 2
CONSTANTS Fault = "hangup"
INVARIANT Quiet

CHECK_DEADLOCK FALSE
