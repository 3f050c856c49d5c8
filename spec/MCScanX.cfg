CONSTANTS
  Machine = "scan"
  N0 = 5
  H0 = 3
  N1 = 0
  H1 = 0
  Metrics = {}
  Watch = {"C07", "C08"}
SPECIFICATION Spec
INVARIANTS Refines Safe
PROPERTY Ends
CHECK_DEADLOCK FALSE
