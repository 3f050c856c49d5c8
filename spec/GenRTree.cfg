CONSTANTS
  Boxes <- Line4
  MaxC = 2
  MinC = 1
  N = 4
  Slots = 1
  Unique = FALSE
  Steps = 60
SPECIFICATION GSpec
INVARIANTS Refines
CHECK_DEADLOCK FALSE
