SPECIFICATION FairSpec
CONSTANTS Kinds = {"bind"}
CONSTANTS Conns = {"a", "b"}
CONSTANTS Each = 2
CONSTANTS Fault = "maxlow"
INVARIANT True

CHECK_DEADLOCK FALSE
