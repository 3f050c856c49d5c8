CONSTANTS
  What = "solid"
  Side = 2
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
