SPECIFICATION FairSpec
CONSTANTS Kinds = {"bind"}
CONSTANTS Conns = {"a", "b"}
CONSTANTS Each = 2
CONSTANTS Fault = "noclose"
INVARIANT True

CHECK_DEADLOCK FALSE
