CONSTANTS
  Boxes <- Line2
  MaxC = 4
  MinC = 2
  N = 10
  Slots = 1
  Unique = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Refines NoEqualKeys TypeOK
CHECK_DEADLOCK FALSE
