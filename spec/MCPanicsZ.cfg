CONSTANTS
  Boxes <- Line4
  MaxC = 2
  MinC = 1
  N = 4
SPECIFICATION Spec
VIEW View
INVARIANTS Survives
CHECK_DEADLOCK FALSE
