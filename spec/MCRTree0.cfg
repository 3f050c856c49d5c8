CONSTANTS
  Boxes <- Line2
  MaxC = 2
  MinC = 0
  N = 3
  Slots = 1
  Unique = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Refines NoEqualKeys TypeOK
CHECK_DEADLOCK FALSE
