CONSTANTS
  Machine = "join"
  N0 = 3
  H0 = 2
  N1 = 3
  H1 = 2
  Metrics = {}
  Watch = {"C08", "C11"}
SPECIFICATION Spec
INVARIANTS Refines Safe
PROPERTY Ends
CHECK_DEADLOCK FALSE
