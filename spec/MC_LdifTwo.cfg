SPECIFICATION Spec
VIEW View
CONSTANTS
  Sizes = {1, 2}
  Slots = {"s1", "s2"}
INVARIANTS SentOK Export
PROPERTIES Complete Isolated OneVersion BindRight
CHECK_DEADLOCK FALSE
