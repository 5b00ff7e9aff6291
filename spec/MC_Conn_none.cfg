SPECIFICATION FairSpec
CONSTANTS MaxReqs = 3
CONSTANTS MaxEntries = 2
CONSTANTS Fault = "none"
INVARIANT Quiet
PROPERTY Answered
CHECK_DEADLOCK FALSE
