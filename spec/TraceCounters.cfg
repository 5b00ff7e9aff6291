SPECIFICATION Spec
CONSTANTS Kinds = {"bind", "unbind", "search", "add", "delete", "modify", "rename"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
