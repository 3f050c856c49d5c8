CONSTANTS
  Boxes <- Line3
  MaxC = 3
  MinC = 1
  N = 5
  Slots = 1
  Unique = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Refines NoEqualKeys TypeOK
CHECK_DEADLOCK FALSE
