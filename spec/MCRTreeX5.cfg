CONSTANTS
  Boxes <- Line2
  MaxC = 2
  MinC = 0
  N = 4
  Slots = 2
  Unique = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Refines NoEqualKeys TypeOK
CHECK_DEADLOCK FALSE
