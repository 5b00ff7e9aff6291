SPECIFICATION FairSpec
CONSTANTS Kinds = {"bind"}
CONSTANTS Conns = {"a", "b"}
CONSTANTS Each = 2
CONSTANTS Fault = "none"
INVARIANT True
PROPERTY Served
CHECK_DEADLOCK FALSE
