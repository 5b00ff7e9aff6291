SPECIFICATION Spec
CONSTANTS Slack = 5
CONSTANTS MemorySlack = 120
CONSTANTS SizeFactor = 2
CONSTANTS SizeSlack = 2000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
