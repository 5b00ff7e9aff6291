SPECIFICATION Spec
CONSTANTS
  Fault = "early"
  Clients = {1, 2}
  MaxOps = 3
  MayDie = FALSE
INVARIANTS Linearizable TreeOK
CHECK_DEADLOCK FALSE
