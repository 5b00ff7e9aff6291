SPECIFICATION ExpireSpec
CONSTANTS
  Sizes = {1, 2, 3, 4}
  Slots = {"s1"}
INVARIANTS SentOK
PROPERTIES Complete Isolated OneVersion BindRight
CHECK_DEADLOCK FALSE
