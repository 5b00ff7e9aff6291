SPECIFICATION FairSpec
CONSTANTS
  Sizes = {1, 2}
  Slots = {"s1"}
PROPERTIES Ends
CHECK_DEADLOCK FALSE
