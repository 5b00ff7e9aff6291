SPECIFICATION Spec
CONSTANTS Kinds = {"bind"}
CONSTANTS Conns = {"a", "b", "c"}
CONSTANTS Each = 1
CONSTANTS Fault = "none"
INVARIANT True
CHECK_DEADLOCK FALSE
