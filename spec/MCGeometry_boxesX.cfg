CONSTANTS
  What = "boxes"
  Side = 4
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
