CONSTANTS
  What = "rays"
  Side = 3
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
