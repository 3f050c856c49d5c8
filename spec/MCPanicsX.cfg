CONSTANTS
  Boxes <- Line3
  MaxC = 2
  MinC = 1
  N = 5
SPECIFICATION Spec
VIEW View
INVARIANTS Survives
CHECK_DEADLOCK FALSE
