SPECIFICATION Spec
CONSTANTS
  Fault = "check"
  Clients = {1, 2}
  MaxOps = 3
  MayDie = FALSE
INVARIANTS Linearizable TreeOK
CHECK_DEADLOCK FALSE
