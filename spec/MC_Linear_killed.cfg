SPECIFICATION Spec
CONSTANTS
  Fault = "none"
  Clients = {1, 2, 3}
  MaxOps = 3
  MayDie = TRUE
INVARIANTS Linearizable TreeOK
CHECK_DEADLOCK FALSE
