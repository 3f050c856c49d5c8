CONSTANTS
  Machine = "rank"
  N0 = 3
  H0 = 2
  N1 = 0
  H1 = 0
  Metrics = {0, 1}
  Watch = {"C09", "C10"}
SPECIFICATION Spec
INVARIANTS Refines Safe
PROPERTY Ends
CHECK_DEADLOCK FALSE
