SPECIFICATION Spec
CONSTANTS
  Fault = "early"
  MaxReq = 3
  Pages = {"p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8"}
INVARIANTS Recovered Live
CHECK_DEADLOCK FALSE
