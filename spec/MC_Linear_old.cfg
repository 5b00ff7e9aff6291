SPECIFICATION Spec
CONSTANTS
  Fault = "old"
  Clients = {1, 2}
  MaxOps = 3
  MayDie = FALSE
INVARIANTS Linearizable TreeOK
CHECK_DEADLOCK FALSE
