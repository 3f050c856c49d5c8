CONSTANTS
  Machine = "left_join"
  N0 = 2
  H0 = 2
  N1 = 3
  H1 = 1
  Metrics = {}
  Watch = {"C08", "C12"}
SPECIFICATION Spec
INVARIANTS Refines Safe
PROPERTY Ends
CHECK_DEADLOCK FALSE
