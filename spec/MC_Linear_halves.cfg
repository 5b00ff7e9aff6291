SPECIFICATION Spec
CONSTANTS
  Fault = "halves"
  Clients = {1, 2}
  MaxOps = 2
  MayDie = TRUE
INVARIANTS Linearizable TreeOK
CHECK_DEADLOCK FALSE
