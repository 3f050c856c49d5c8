CONSTANTS
  Machine = "scan"
  N0 = 4
  H0 = 2
  N1 = 0
  H1 = 0
  Metrics = {}
  Watch = {"C07", "C08"}
SPECIFICATION Spec
INVARIANTS Refines Safe
PROPERTY Ends
CHECK_DEADLOCK FALSE
