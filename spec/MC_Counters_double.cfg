SPECIFICATION FairSpec
CONSTANTS Kinds = {"bind"}
CONSTANTS Conns = {"a", "b"}
CONSTANTS Each = 2
CONSTANTS Fault = "double"
INVARIANT True

CHECK_DEADLOCK FALSE
