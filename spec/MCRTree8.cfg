CONSTANTS
  Boxes <- Line1
  MaxC = 3
  MinC = 2
  N = 9
  Slots = 1
  Unique = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Refines NoEqualKeys TypeOK
CHECK_DEADLOCK FALSE
