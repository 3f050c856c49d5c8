CONSTANTS
  Boxes <- Plane5
  MaxC = 4
  MinC = 2
  N = 6
  Slots = 1
  Unique = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Refines NoEqualKeys TypeOK
CHECK_DEADLOCK FALSE
