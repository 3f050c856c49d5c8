CONSTANTS
  Boxes <- Plane5
  MaxC = 3
  MinC = 1
  N = 4
  Slots = 1
  Unique = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Refines NoEqualKeys TypeOK
CHECK_DEADLOCK FALSE
