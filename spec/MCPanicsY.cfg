CONSTANTS
  Boxes <- Plane3
  MaxC = 3
  MinC = 2
  N = 5
SPECIFICATION Spec
VIEW View
INVARIANTS Survives
CHECK_DEADLOCK FALSE
