SPECIFICATION FairSpec
CONSTANTS Kinds = {"bind"}
CONSTANTS Conns = {"a", "b"}
CONSTANTS Each = 2
CONSTANTS Fault = "nolock"
INVARIANT True

CHECK_DEADLOCK FALSE
